"""The road manager library refuses calls without a road network and handles, ids and indices that do not exist.

Every exported function of the road manager library is analysed twice: with no road network loaded, and with one loaded
and arbitrary arguments. No null pointer and no unchecked lookup result is dereferenced, an index computed from a
caller's argument is known to lie inside the container, and a path that found nothing ends with the failure value and
without having written to the caller's memory. Loading leaves a network exactly when it reports success.
"""
from flow import Engine, NULL, is_c, query, show
from api import RMLIB, exported, from_param, may_return_null
import A02

INIT = ("RM_Init", "RM_InitWithString", "RM_InitWithODRHandle")
LOOKUPS = A02.LOOKUPS + ("GetRoadByIdx", "GetLaneSectionByS")
# documented results that are not negative
VALUES = {
    "RM_GetInLaneType": {1},
    "RM_GetRoadLength": {0}, "RM_GetNumberOfRoadSigns": {0, -1}, "RM_GetNumberOfRoadSignValidityRecords": {0, -1},
    "RM_GetRoadNumberOfLanes": {0, -1}, "RM_GetRoadNumberOfDrivableLanes": {0, -1}, "RM_GetNumberOfRoads": {0, -1},
    "RM_GetOptionSet": {0, 1},
    "RM_Close": {0},
}


def failure(f, v):
    if f.ret == "void":
        return True
    if v is None:
        return False
    if not is_c(v):
        return False
    c = v[1]
    if f.name in VALUES:
        return c in VALUES[f.name]
    if f.ret.endswith("*"):
        return c in (0, "")
    if f.ret.startswith("unsigned"):
        return c == 4294967295
    if isinstance(c, str):
        return False
    return c < 0 or (f.ret == "bool" and c == 0)


class C(A02.C):
    def __init__(self, prog, mn, f):
        A02.C.__init__(self, prog, mn, f)
        self.suffix = RMLIB


def run(ctx):
    p = ctx.program()
    gs = [g for g in p.globals.values() if g.file.endswith(RMLIB) and g.t == "roadmanager::OpenDrive *"]
    if not gs:
        return
    g = gs[0].q
    mn = may_return_null(p)
    fs = exported(p, RMLIB, "RM_")
    ctx.count("exported functions", len(fs))
    ploc = ("g", g)
    for f in fs:
        if f.name in INIT or f.name == "RM_Close":
            continue
        for loaded in (False, True):
            c = C(p, mn, f)
            e = Engine(p, c)
            if loaded:
                outs = e.run(f, lambda st: st.facts.__setitem__(("nz", ("init", ploc)), True))
            else:
                outs = e.run(f, lambda st: st.env.__setitem__(ploc, NULL))
            ctx.count("dereferences of lookup results", c.nder)
            ctx.count("indices derived from arguments", c.nidx)
            ctx.count("paths to an exit", len(outs))
            b = c.bad[0] if c.bad else None
            ctx.check(b is None, "%s: %s" % (f.name, "arguments checked" if loaded else "no network"), b[0].fn.loc(b[0]) if b else f.loc(),
                      "%s %s" % (f.name, b[1] if b else ""))
            for o, r in outs:
                if loaded:
                    failed = [a[1][1] for a, s in o.facts.items() if a[0] == "nz" and s is False and a[1][0] == "mn" and a[1][1] in LOOKUPS
                              and (from_param(a[1][3]) or not a[1][3])]
                    if not failed:
                        continue
                    what = "%s found nothing" % failed[0]
                else:
                    if not depends(p, f, g):
                        continue
                    what = "no road network is loaded"
                ctx.check(failure(f, r), "%s: failure value (%s)" % (f.name, "lookup" if loaded else "no network"), f.loc(),
                          "%s returns %s although %s" % (f.name, show(r) if r else "nothing", what))
                ctx.check("w" not in o.aux, "%s: output (%s)" % (f.name, "lookup" if loaded else "no network"), "%s:%s" % (f.file, o.aux.get("w")),
                          "%s writes to the caller's memory although %s" % (f.name, what))

    class PC(C):
        def part(self, eng, st):
            return query(st, eng.read(st, ploc))

    for f in fs:
        if f.name not in INIT and f.name != "RM_Close":
            continue
        for o, r in Engine(p, PC(p, mn, f)).run(f):
            pv = query(o, o.env.get(ploc, ("init", ploc)))
            if f.name == "RM_Close":
                ctx.check(pv is False, "RM_Close: unloads", f.loc(), "a path through RM_Close leaves a road network loaded")
            elif r is not None and is_c(r) and r[1] == 0:
                ctx.check(pv is not False, "%s: success" % f.name, f.loc(), "returns 0 on a path that leaves no road network loaded")
            else:
                ctx.check(r is not None and is_c(r) and r[1] < 0 and pv is False, "%s: failure" % f.name, f.loc(),
                          "returns %s on a path that may leave a road network loaded" % (show(r) if r else "nothing"))


_dep = {}


def depends(p, f, g):
    from api import uses_global
    if f.usr not in _dep:
        _dep[f.usr] = uses_global(p, f, g, RMLIB) or uses_global(p, f, "position", RMLIB)
    return _dep[f.usr]
