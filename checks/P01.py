"""Scenario file: every attribute reaches the member it stands for, every keyword its enumerator, every default its value.

The values assigned to the members of the scenario objects are traced back through locals, helpers, parameters and
conversions to the attribute of the element they are read from. The origins found (attributes, keyword -> constant pairs,
defaults) are compared with the table of origins in spec/P01.json, which was reviewed against the OpenSCENARIO format.
"""
import prov
import provcheck

ASSUMPTIONS = [
    "the table spec/P01.json states the format: it was derived from the pinned tree and reviewed entry by entry",
    "an origin the analysis cannot resolve (a value computed by library containers or text surgery) is not judged",
    "range checks, the order of fallbacks and the presence tests that select between attributes are not judged",
]
FILES = ("ScenarioReader.cpp", "OSCPosition.cpp")
SKIP = (r"full_path_", r"::GetObjectByName #", r"LookupRoadIdFromStr", r"FindCatalogByName", r"catalog_dirs_", r"GetRoadById #", r"RangeCheck", r"_relative_$", r"lane_section_idx_", r"Spiral::(arc|line)_",
        r"^ParameterStruct::name", r"object_pool_", r"initActions_", r"private_action_", r"FromStr #", r"^Entities::object_", r"^Controller::object_", r"Arc::|^Geometry::",
        r"catalogs_\.", r"entities_\.", r"shape_\.Evaluate", r"SetCategory #", r"SetRole #", r"AddSegment #", r"AddVertex #")


def analyse(p):
    pv = prov.Prov(p, FILES)
    return provcheck.mine(pv), pv.created()


def run(ctx):
    got, created = analyse(ctx.program())
    ctx.need("members that depend on the file", len(got), 200)
    provcheck.compare(ctx, provcheck.load("P01.json"), got, created, "ScenarioReader.cpp")
