"""Road file: every attribute reaches the member it stands for, every keyword its enumerator, every default its value.

As P01, for the OpenDRIVE reader: geometry, lanes, widths, elevations, signals, objects, junctions and controllers are traced
back to the attributes they are read from and compared with the reviewed table spec/P02.json.
"""
import prov
import provcheck

ASSUMPTIONS = [
    "the table spec/P02.json states the format: it was derived from the pinned tree and reviewed entry by entry",
    "an origin the analysis cannot resolve (a value computed by library containers or text surgery) is not judged",
    "range checks, the order of fallbacks and the presence tests that select between attributes are not judged",
]
FILES = ("RoadManager.cpp",)
SKIP = (r"^pair::", r"^Position::", r"^Tunnel::width_", r"Str2Side #", r"::controller_\[\]", r"Controller::Controller #", r"^new (Geometry|LaneRoadMark|LaneRoadMarkTypeLine|Outline)$", r"parking_space_$",
        r"osi_type_", r"Polynomial::p_scale_", r"lane_height_\[\]$")


def analyse(p):
    pv = prov.Prov(p, FILES)
    return provcheck.mine(pv), pv.created()


def run(ctx):
    got, created = analyse(ctx.program())
    ctx.need("members that depend on the file", len(got), 100)
    provcheck.compare(ctx, provcheck.load("P02.json"), got, created, "RoadManager.cpp")
