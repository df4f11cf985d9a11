"""Every exported function is safe and reports failure while no scenario is loaded.

Each exported function is analysed with the session pointer null: along every path (helpers analysed in place) no null
pointer is dereferenced, nothing is written to memory the caller passed in, and the value returned is the documented
failure value. The functions that load and close a scenario are analysed from an arbitrary session: a failing load and a
close leave no scenario loaded, a successful load leaves one.
"""
import math
from flow import Engine, NULL, Zone, is_c, query, show
from api import LibClient, exported, session_global, uses_global

INIT = ("SE_Init", "SE_InitWithArgs", "SE_InitWithString")
# documented results without a scenario that are not negative
VALUES = {
    "SE_GetObjectInLaneType": {1},
    "SE_ObjectHasGhost": {0},
    "SE_SaveImagesToRAM": {0},                     # stored for the next scenario
    "SE_OpenOSISocket": {0, -1}, "SE_SetOSIFrequency": {0, -1}, "SE_SetOSISensorDataRaw": {0, -1},      # not part of this build
    "SE_GetRoadIdFromString": {4294967295}, "SE_GetJunctionIdFromString": {4294967295},
    "SE_GetNumberOfRoadSigns": {0}, "SE_GetNumberOfRoadSignValidityRecords": {0},
    "SE_GetSimulationTime": {0}, "SE_GetSimTimeStep": {0},
    "SE_GetRouteTotalLength": {-1, 0},
    "SE_GetObjectOdometer": {"nan"}, "SE_GetObjectAcceleration": {"nan"},
    "SE_InjectedActionOngoing": {0},
}
WRITES = {"SE_GetObjectStates": {"nObjects"}}


def result_ok(f, v):
    if f.ret == "void":
        return True
    if v is None:
        return False
    if v[0] == "call" and "nan" in v[1]:
        c = "nan"
    elif is_c(v):
        c = v[1]
        if isinstance(c, float) and math.isnan(c):
            c = "nan"
    else:
        return False
    if f.name in VALUES:
        return c in VALUES[f.name]
    if f.ret.endswith("*"):
        return c in (0, "")
    if f.ret in ("int", "long"):
        return isinstance(c, int) and c < 0
    if f.ret.startswith("unsigned"):
        return c in (0, 4294967295)
    if f.ret == "bool":
        return c == 0
    if f.ret in ("double", "float"):
        return c in ("nan", 0) or (isinstance(c, (int, float)) and c < 0)
    return True


def run(ctx):
    p = ctx.program()
    g = session_global(p)
    ploc = ("g", g)
    fs = exported(p)
    ctx.need("exported functions", len(fs), 50)
    dep = [f for f in fs if uses_global(p, f, g)]
    ctx.need("functions that depend on the session", len(dep), 30)
    paths = 0
    for f in dep:
        if f.name in INIT:
            continue
        c = LibClient()
        e = Engine(p, c)
        outs = e.run(f, lambda st: st.env.__setitem__(ploc, NULL))
        paths += len(outs)
        bad = c.nulls[0] if c.nulls else None
        ctx.check(not bad, "%s: null session" % f.name, bad.fn.loc(bad) if bad else f.loc(),
                  "dereferences a null pointer when %s is called with no scenario loaded" % f.name)
        allowed = WRITES.get(f.name, set())
        w = [x for x in c.writes if not any(show(x[1]).lstrip("*").startswith(a) for a in allowed)]
        ctx.check(not w, "%s: output untouched" % f.name, w[0][0].fn.loc(w[0][0]) if w else f.loc(),
                  "writes %s although no scenario is loaded" % (show(w[0][1]) if w else ""))
        if f.name == "SE_Close":
            continue
        for o, r in outs:
            ctx.check(result_ok(f, r), "%s: failure value" % f.name, f.loc(),
                      "%s may return %s with no scenario loaded" % (f.name, show(r) if r else "nothing"))
    # loading and closing
    class PC(LibClient):
        def call(self, eng, st, n, q, recv, args):
            if q.endswith("ScenarioPlayer::Init"):
                st.aux["init"] = ("call", q, (), n.id, eng.ctx)
                return [(st, st.aux["init"])]
            return None

        def part(self, eng, st):
            v = eng.read(st, ploc)
            iv = st.aux.get("init")
            return query(st, v), iv is not None and (query(st, iv), Zone(st.facts).le(NULL, iv))

    inits = [f for f in fs if f.name in INIT]
    ctx.need("functions that load a scenario", len(inits), 3)
    for f in inits:
        outs = Engine(p, PC()).run(f)
        paths += len(outs)
        ctx.check(any(r == NULL for o, r in outs), "%s: can succeed" % f.name, f.loc(), "no path returns 0")
        for o, r in outs:
            pv = query(o, o.env.get(ploc, ("init", ploc)))
            if r is not None and is_c(r) and r[1] == 0:
                ctx.check(pv is True, "%s: success" % f.name, f.loc(), "returns 0 on a path that leaves no scenario loaded")
                iv = o.aux.get("init")
                ctx.check(iv is not None and (query(o, iv) is False or Zone(o.facts).le(NULL, iv)), "%s: success means loaded" % f.name, f.loc(),
                          "returns 0 on a path on which the player did not report success")
            else:
                ctx.check(r is not None and is_c(r) and r[1] < 0 and pv is False, "%s: failure" % f.name, f.loc(),
                          "returns %s on a path that may leave a half-loaded scenario" % (show(r) if r else "nothing"))
    cl = [f for f in fs if f.name == "SE_Close"]
    ctx.need("close functions", len(cl), 1)
    for o, r in Engine(p, PC()).run(cl[0]):
        pv = query(o, o.env.get(ploc, ("init", ploc)))
        ctx.check(pv is False, "SE_Close: unloads", cl[0].loc(), "a path through SE_Close leaves the scenario loaded")
    ctx.count("paths to an exit", paths)
