"""Asking about the simulation does not change it.

The set of storage a query can write, directly or through anything it calls, is computed for every query function of the
two C libraries. Apart from the caller's own memory, return buffers, locks and the listed bookkeeping, it must be empty.
"""
import re
import effects
from flow import Client, Engine, show
from api import LIB, RMLIB, exported, may_return_null

ASSUMPTIONS = [
    "the logger and movements along a route are not followed (probes work on copies of the route)",
    "library functions without source (C++ standard library, OpenSceneGraph) do not change simulation state",
]
QUERY = re.compile(r"^(SE|RM)_(Get|Fetch|SimpleGet|SimpleVehicleGet|ObjectHas|ObjectCan|InjectedActionOngoing)")
# buffers and one-shot diagnostics
GENERAL = re.compile(r"(::|^g:)(returnString|firstTime|val|rid)$|^OffScreenImage::|^SE_Mutex::|^SE_Semaphore::|^roadmanager::RoadPath::PathNode::|^g:[\w:]*::(returnString|firstTime)\b")
PROBE = ("SE_Rand::gen_", "scenarioengine::Object::sensor_pos_")
TRAIL = ("roadmanager::PolyLineBase::current_index_", "scenarioengine::Object::sensor_pos_", "scenarioengine::Object::trail_follow_index_",
         "scenarioengine::Object::trail_closest_pos_")
ALLOWED = {
    "SE_GetRoadInfoAlongGhostTrail": TRAIL, "SE_GetRoadInfoGhostTrailTime": TRAIL,
    "SE_GetRoadInfoAlongRoute": PROBE, "SE_GetRoadInfoAtDistance": PROBE, "RM_GetLaneInfo": PROBE, "RM_GetProbeInfo": PROBE,
    "SE_SimpleGetDistanceToObject": ("scenarioengine::ScenarioEngine::object_distance_map_", "scenarioengine::ScenarioEngine::DistanceEntry::",
                                     "scenarioengine::ScenarioEngine::DistanceMeasurement::"),      # cache of the last measurement
    "SE_GetSimTimeStep": ("g:time_stamp", "*long"),
}
# recomputes the position it is asked about (documented as moving the position to the found road)
SKIP = {"RM_GetNumberOfRoadsOverlapping"}


def barrier(f):
    return effects.logging(f) or f.cls == "roadmanager::Route" or f.name == "MoveRouteDS"


def run(ctx):
    p = ctx.program()
    fs = [f for suf, pre in ((LIB, "SE_"), (RMLIB, "RM_")) for f in exported(p, suf, pre) if QUERY.match(f.name) and f.name not in SKIP]
    ctx.need("query functions", len(fs), 60)
    e = effects.Effects(p, [f.usr for f in fs], barrier)
    ctx.count("functions reachable from queries", len(e.calls))
    for f in fs:
        allowed = ALLOWED.get(f.name, ())
        bad = []
        for k in e.of(f.usr):
            root, deep, what = k
            if re.match(r"p\d+$", root):
                continue        # the caller's memory
            if "iterator" in what or what.startswith(("ext:", "*")) or GENERAL.search(what):
                continue
            if what.startswith("g:" + f.q + "::"):
                continue        # return buffer
            if any(what.startswith(a) for a in allowed):
                continue
            if what.startswith("roadmanager::TrajVertex::") and "Ghost" in f.name:
                continue        # result of the trail lookup
            bad.append(k)
        bad.sort(key=repr)
        ctx.check(not bad, "%s: pure" % f.name, f.loc(), "writes %s: %s" % (bad[0][2], e.trace(f.usr, bad[0])) if bad else "")
        ctx.count("effects examined", len(e.of(f.usr)))

    own_trail(ctx, p)
    # probes move a duplicate that shares the route: the route is saved before and put back on every way out
    for u in sorted(e.calls):
        f = p.fn(u)
        if f is None or f.cfg_err:
            continue
        names = {(n.g("q") or "") for n in f.calls()}
        if "roadmanager::Route::CopyTo" not in names and not ("roadmanager::Position::Duplicate" in names and "roadmanager::Position::MoveAlongS" in names):
            continue
        c = Probe()
        outs = Engine(p, c).run(f)
        ctx.count("probing functions")
        ctx.check(not c.unsaved, "%s: route saved" % f.name, f.loc(c.unsaved[0]) if c.unsaved else f.loc(),
                  "moves a duplicate that shares the route without having saved the route")
        for st, v in outs:
            ctx.check("sv" not in st.aux or no_route(st), "%s: route restored" % f.name, f.loc(),
                      "a path leaves the function without putting back the route saved at line %s" % st.aux.get("sv"))


def own_trail(ctx, p):
    """look-ups along a ghost's trail keep their place in the asked object only"""
    import A04
    import algebra as al
    mn = may_return_null(p)

    class Own(A04.C):
        def call(self, eng, st, n, q, recv, args):
            for a in args:
                s = al.poly_str(eng.aval(st, a))
                if re.search(r"\.trail_(follow_index|closest_pos)_$", s):
                    self.vals.setdefault("own", {}).setdefault(s, n)
            return A04.C.call(self, eng, st, n, q, recv, args)
    for f in exported(p, LIB, "SE_"):
        if ALLOWED.get(f.name) is not TRAIL:
            continue
        al.PARAMS = {x: i for i, x in enumerate(f.params)}
        c = Own(p, mn, LIB)
        Engine(p, c).run(f)
        for s, n in c.vals.get("own", {}).items():
            ctx.check(s.startswith("GetObjectById($0).trail_"), "%s: place on the trail" % f.name, n.fn.loc(n),
                      "keeps its place on the trail in %s, not in the object asked about" % s)


def no_route(st):
    return "nr" in st.aux or any(a[0] == "nz" and s is False and "oute" in show(a[1]) for a, s in st.facts.items())


class Probe(Client):
    def __init__(self):
        self.unsaved = []

    def inline(self, eng, fn, n):
        return len(fn.blocks) <= 3 and fn.name in ("GetRoute",)

    def call(self, eng, st, n, q, recv, args):
        if no_route(st):
            st.aux["nr"] = st.aux["ok"] = 1
        if q == "roadmanager::Route::CopyTo":
            st.aux["sv"] = n.l
            st.aux["ok"] = 1
        elif q == "roadmanager::Route::CopyFrom":
            st.aux.pop("sv", None)
        elif q == "roadmanager::Position::Duplicate" and recv is not None and recv[0] == "v":
            st.aux[("dup", recv)] = 1
        elif q == "roadmanager::Position::MoveAlongS" and recv is not None and ("dup", recv) in st.aux:
            if "ok" not in st.aux:
                self.unsaved.append(n)
        return None

    def part(self, eng, st):
        return frozenset(k for k in st.aux)
