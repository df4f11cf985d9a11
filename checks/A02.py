"""Ids, indices and names the caller invents are refused, never followed.

Every exported function is analysed with a scenario loaded and arbitrary arguments. A pointer obtained from a lookup
that can find nothing must be known to be non-null where it is dereferenced; an index computed from a caller's argument
must be known to lie inside the container it selects from; and a path on which the lookup of a caller's id failed ends
with the failure value and without writing to the caller's memory.
"""
from flow import Engine, NULL, Zone, is_c, query, show, mentions_pred
from api import LIB, LibClient, caller_memory, exported, from_param, may_return_null, session_global
from A01 import INIT, VALUES, result_ok

LOOKUPS = ("GetObjectById", "GetRoadById", "GetRoadByIdStr", "GetJunctionById", "GetJunctionByIdStr", "GetSignal", "GetOptionByEnum",
           "GetObjectByName")
# documented results for an unknown id that are not negative
UNKNOWN = {"SE_GetObjectInLaneType": {1}, "SE_ObjectHasGhost": {0}}

# reports how far the prediction got
PARTIAL = set()


class C(LibClient):
    max_inline = 4
    infer_pure = True
    enum_u = True

    def __init__(self, prog, mn, f, pairs=None):
        LibClient.__init__(self)
        self.p = prog
        self.mn = mn
        self.f = f
        self.bad = []
        self.nder = 0
        self.nidx = 0
        self.pairs = pairs if pairs is not None else []

    def inline(self, eng, fn, n):
        if LibClient.inline(self, eng, fn, n):
            return True
        return fn.file.endswith(("PlayerBase/playerbase.cpp", "SourceFiles/Parameters.cpp")) and len(fn.blocks) <= 12 and \
            fn.name.startswith(("GetParameterName", "GetVariableName", "GetNumberOf", "GetProperty"))

    def call(self, eng, st, n, q, recv, args):
        u = n.g("u")
        if u in self.mn:
            f = self.p.fn(u)
            if f is not None and self.inline(eng, f, n) and f.name not in ("GetGhost", "GetRoute"):
                return None
            vals = tuple(eng.aval(st, a) for a in args)
            return [(st, ("mn", q.rsplit("::", 1)[-1], recv if recv is not None else 0, vals))]
        return None

    def deref(self, eng, st, n, ptr):
        if ptr == NULL:
            self.bad.append((n, "dereferences a null pointer"))
        elif ptr[0] == "mn" or (ptr[0] == "op" and ptr[1].startswith("dyn:")):
            self.nder += 1
            if ptr[0] == "mn" and ptr[1].endswith("ByIdx") and not from_param(ptr[3]):
                return      # enumeration of a container, not the caller's choice
            if query(st, ptr) is not True:
                self.bad.append((n, "dereferences the result of %s without knowing that it found something" % (
                    ptr[1] if ptr[0] == "mn" else "a dynamic cast")))

    def index(self, eng, st, n, loc, idx, size):
        if size is None or caller_memory(loc) or not from_param(idx):
            return
        v = idx
        while v[0] == "u":
            v = v[1]
        if is_c(v):
            return
        self.nidx += 1
        if (v, size) not in self.pairs:
            self.pairs.append((v, size))
        z = Zone(st.facts)
        v = plain(z, v)
        lo = z.le(NULL, v) or self.unsigned(v)
        hi = z.lt(v, size) or z.lt(idx, size) or query(st, ("op", "<", v, size)) is True
        if not (lo and hi):
            self.bad.append((n, "selects element %s of %s without a range check" % (show(v), show(loc))))

    def unsigned(self, v):
        if v[0] == "init" and v[1][0] == "v" and len(v[1]) > 3 and isinstance(v[1][2], int) and v[1][1] == 0:
            t = self.f.vars[v[1][2]].t
            return t.startswith("unsigned")
        return False

    def write(self, eng, st, n, loc, val):
        if caller_memory(loc):
            st.aux["w"] = n.l

    def outside(self, st):
        """caller indices known to lie outside the container"""
        z = Zone(st.facts)
        return tuple((v, s) for v, s in self.pairs if z.le(s, v) or z.le(s, ("u", v)) or z.lt(v, NULL))

    def part(self, eng, st):
        return (st.aux.get("w"), self.outside(st)) + tuple(sorted(repr(a) for a, s in st.facts.items() if a[0] == "nz" and a[1][0] == "mn" and s is False))


def plain(z, v):
    """the unsigned view of a value known to be non-negative is the value"""
    if v[0] == "u":
        x = plain(z, v[1])
        return x if z.le(NULL, x) else ("u", x)
    if v[0] == "op":
        return v[:2] + tuple(plain(z, x) if isinstance(x, tuple) else x for x in v[2:])
    return v


def run(ctx):
    p = ctx.program()
    g = session_global(p)
    mn = may_return_null(p)
    fs = [f for f in exported(p) if f.name not in INIT]
    ctx.count("exported functions", len(fs))
    nd = ni = nl = nf = no = 0
    for f in fs:
        c = C(p, mn, f)
        e = Engine(p, c)
        outs = e.run(f, lambda st: st.facts.__setitem__(("nz", ("init", ("g", g))), True))
        nd += c.nder
        ni += c.nidx
        if c.nder or c.nidx or c.bad:
            b = c.bad[0] if c.bad else None
            ctx.check(b is None, "%s: arguments checked" % f.name, b[0].fn.loc(b[0]) if b else f.loc(),
                      "%s %s" % (f.name, b[1] if b else ""))
        if c.pairs:
            c = C(p, mn, f, c.pairs)
            outs = Engine(p, c).run(f, lambda st: st.facts.__setitem__(("nz", ("init", ("g", g))), True))
        for o, r in outs:
            if f.ret in ("int", "long") and r is not None and is_c(r) and r[1] < 0 and f.name not in PARTIAL:
                nf += 1
                ctx.check("w" not in o.aux, "%s: failure, output" % f.name, "%s:%s" % (f.file, o.aux.get("w")),
                          "%s writes to the caller's memory on a path on which it reports failure (%s)" % (f.name, r[1]))
            for v, s in c.outside(o):
                no += 1
                ok = (is_c(r) and r[1] in UNKNOWN[f.name]) if f.name in UNKNOWN and r is not None else result_ok(f, r)
                ctx.check(ok and "w" not in o.aux, "%s: index out of range" % f.name, f.loc(),
                          "%s returns %s%s although %s lies outside %s" % (
                              f.name, show(r) if r else "nothing", " and writes to the caller's memory" if "w" in o.aux else "", show(v), show(s)))
            failed = [a[1] for a, s in o.facts.items() if a[0] == "nz" and s is False and a[1][0] == "mn" and a[1][1] in LOOKUPS
                      and from_param(a[1][3])]
            if not failed:
                continue
            nl += 1
            if f.name in UNKNOWN:
                ok = r is not None and is_c(r) and r[1] in UNKNOWN[f.name]
            else:
                ok = result_ok(f, r)
            ctx.check(ok, "%s: unknown id" % f.name, f.loc(), "%s returns %s although %s found nothing" % (
                f.name, show(r) if r else "nothing", failed[0][1]))
            ctx.check("w" not in o.aux, "%s: unknown id, output" % f.name, "%s:%s" % (f.file, o.aux.get("w")),
                      "%s writes to the caller's memory although %s found nothing" % (f.name, failed[0][1]))
    ctx.count("dereferences of lookup results", nd)
    ctx.count("indices derived from arguments", ni)
    ctx.count("paths with a failed lookup", nl)
    ctx.count("paths reporting failure", nf)
    ctx.count("paths with an index out of range", no)
