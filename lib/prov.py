"""Value provenance of a file reader: which attribute of which element ends in which member.

For every member that is assigned, the alternatives of the assigned value are derived by def-use chains (reaching
definitions within a function, parameters through the call sites, small helpers by substitution). Conversions between text
and numbers, casts and copies are looked through. A constant carries the text comparisons under which it is chosen, so
"rule equal to 'lessThan' gives LESS_THAN" is an alternative of its own; the names an element was compared with give the
element of an attribute.
"""
import re

from util import strip

CONV = {"strtod", "strtoi", "strtol", "strtof", "atof", "atoi", "atol", "stod", "stoi", "stof", "stoul", "stoull", "strtoul", "strtoull", "c_str", "data", "value", "as_double", "as_int",
        "as_uint", "as_float", "as_string", "as_bool", "as_ullong", "as_llong", "str", "move", "forward", "to_string", "operator()", "get", "string", "basic_string", "as_xml"}
NOISE = ("ogger", "fmt::", "spdlog", "__LOG")
CAP = 48


def lit(v):
    return ("lit", v)


def show(t):
    k = t[0]
    if k == "lit":
        v = t[1]
        if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
            v = int(v)
        if isinstance(v, bool):
            v = int(v)
        return "'%s'" % v if isinstance(v, str) else repr(v)
    if k == "enum":
        return t[1]
    if k == "attr":
        return "%s@%s" % (t[1], t[2])
    if k == "text":
        return "%s.text" % t[1]
    if k == "op":
        a = [show(x) for x in t[2:]]
        if t[1] in ("+", "*", "==", "!=", "|", "&", "&&", "||", "max", "min"):
            a.sort()
        return "(%s)" % (" %s " % t[1]).join(a) if len(a) > 1 else "%s%s" % (t[1], a[0] if a else "")
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k == "fld":
        return t[1]
    if k == "name":
        return "name(%s)" % show(t[1])
    if k in ("node", "elem", "pnode"):
        return "<%s>" % (t[1] if k == "node" else k)
    if k == "par":
        return "$%s" % t[2]
    return k


def has(t, kinds):
    if t[0] in kinds:
        return True
    return any(has(x, kinds) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or any(
        has(y, kinds) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)


class FnInfo:
    """reaching definitions, block of every node, branch facts"""

    def __init__(self, pv, f):
        self.f = f
        self.pv = pv
        self.where = {}
        for b in f.blocks.values():
            for j, e in enumerate(b.e):
                if e >= 0:
                    self.where.setdefault(e, (b.id, j))
        # nodes inside larger elements belong to the position of the element
        for n in f.nodes:
            if n.id in self.where:
                continue
            m, k = n.id, 0
            while m in f.parent and k < 40:
                m = f.parent[m]
                k += 1
                if m in self.where:
                    self.where[n.id] = self.where[m]
                    break
        self.defs = []           # (var, kind, node, rhs node id or None)
        self.at = {}             # block -> [(pos, def index)]
        for b in f.blocks.values():
            for j, e in enumerate(b.e):
                if e >= 0:
                    for d in self.defs_of(f.nodes[e]):
                        self.at.setdefault(b.id, []).append((j, len(self.defs)))
                        self.defs.append(d)
        self.preds = {b: [] for b in f.blocks}
        for b in f.blocks.values():
            for s in b.succ:
                if s is not None:
                    self.preds[s].append(b.id)
        self._in = None
        self._facts = None

    def defs_of(self, n):
        f = self.f
        res = []
        if n.k == "decl":
            for v, i in n.g("ds"):
                res.append((v, "decl", n, i if i >= 0 else None))
        elif n.k == "asg":
            l = strip(f, f.nodes[n.c[0]])
            if l.k == "ref":
                res.append((l.g("d"), "asg" if n.g("op") == "=" else n.g("op"), n, n.c[1]))
        elif n.k == "un" and n.g("op") in ("++", "--", "p++", "p--"):
            l = strip(f, f.nodes[n.c[0]])
            if l.k == "ref":
                res.append((l.g("d"), "mod", n, None))
        elif n.k in ("call", "ctor"):
            kids = list(n.c)
            name = (n.g("q") or "").rsplit("::", 1)[-1]
            if n.g("recv") and kids and kids[0] >= 0:
                r = strip(f, f.nodes[kids[0]])
                if r.k == "ref" and not n.g("const"):
                    if name == "operator=" and len(kids) == 2:
                        res.append((r.g("d"), "asg", n, kids[1]))
                    elif name.startswith("operator") and name[-1] == "=" and name[8:] not in ("==", "!=", "<=", ">="):
                        res.append((r.g("d"), name[8:], n, kids[1] if len(kids) > 1 else None))
                kids = kids[1:]
            pm = n.g("pm") or ""
            for j, i in enumerate(kids):
                if i >= 0 and j < len(pm) and pm[j] == "r":
                    a = strip(f, f.nodes[i])
                    if a.k == "ref":
                        res.append((a.g("d"), "out%d" % j, n, None))
                    elif a.k == "un" and a.g("op") == "&":
                        a = strip(f, f.nodes[a.c[0]])
                        if a.k == "ref":
                            res.append((a.g("d"), "out%d" % j, n, None))
        return res

    @property
    def rin(self):
        if self._in is None:
            f = self.f
            inn = {b: {} for b in f.blocks}
            work = [f.entry]
            done = set()
            while work:
                b = work.pop()
                done.add(b)
                out = {k: v for k, v in inn[b].items()}
                for j, d in self.at.get(b, ()):
                    v, kind = self.defs[d][0], self.defs[d][1]
                    if kind in ("decl", "asg"):
                        out[v] = frozenset((d,))
                    else:
                        out[v] = out.get(v, frozenset()) | {d}
                for s in f.blocks[b].succ:
                    if s is None:
                        continue
                    ch = s not in done
                    t = inn[s]
                    for v, ds in out.items():
                        o = t.get(v)
                        if o is None or not ds <= o:
                            t[v] = ds | (o or frozenset())
                            ch = True
                    if ch and s not in work:
                        work.append(s)
            self._in = inn
        return self._in

    def reaching(self, nid, v):
        w = self.where.get(nid)
        if w is None:
            return [i for i, d in enumerate(self.defs) if d[0] == v]
        cur = self.rin[w[0]].get(v, frozenset())
        for j, d in self.at.get(w[0], ()):
            if j >= w[1]:
                break
            if self.defs[d][0] == v:
                cur = frozenset((d,)) if self.defs[d][1] in ("decl", "asg") else cur | {d}
        return sorted(cur)

    def facts(self, nid):
        """text equalities that hold where the node is evaluated: {term: frozenset of literals}"""
        if self._facts is None:
            self._facts = {}
            self._facts = self.solve_facts()
        w = self.where.get(nid)
        return self._facts.get(w[0], {}) if w else {}

    def solve_facts(self):
        f = self.f
        edge = {}
        for b in f.blocks.values():
            if b.cond is None or len(b.succ) < 2:
                continue
            if b.tk == "SwitchStmt":
                t = self.pv.gterm(self, b.cond)
                if t is None:
                    continue
                for s in b.succ:
                    if s is not None and f.blocks[s].case:
                        ls = [self.pv.const(self, f.nodes[i]) for i in f.blocks[s].case]
                        if all(x is not None for x in ls):
                            edge.setdefault((b.id, s), {})[t] = frozenset(ls)
                continue
            c = b.cond
            while f.nodes[c].k == "bin" and f.nodes[c].g("op") in ("&&", "||"):
                c = f.nodes[c].c[1]
            for i, s in enumerate(b.succ[:2]):
                if s is None:
                    continue
                e = self.pv.equality(self, c, i == 0)
                if e:
                    edge.setdefault((b.id, s), {}).update({e[0]: frozenset((e[1],))})
        TOP = None
        res = {b: TOP for b in f.blocks}
        res[f.entry] = {}
        work = [f.entry]
        while work:
            b = work.pop(0)
            out = dict(res[b])
            for j, d in self.at.get(b, ()):
                v = self.defs[d][0]
                for t in [t for t in out if has(t, ("elem",)) and ("elem", f.usr, v) in walk(t)]:
                    del out[t]
            for s in f.blocks[b].succ:
                if s is None:
                    continue
                o = dict(out)
                o.update(edge.get((b, s), {}))
                if res[s] is TOP:
                    new = o
                else:
                    new = {}
                    for t, ls in res[s].items():
                        if t in o and len(ls | o[t]) <= 6:
                            new[t] = ls | o[t]
                if new != res[s]:
                    res[s] = new
                    if s not in work:
                        work.append(s)
        return {b: v for b, v in res.items() if v is not TOP}


def walk(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from walk(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from walk(y)


class Prov:
    def __init__(self, p, files, extra=(), reader=("ReadAttribute",), ignore=()):
        self.p = p
        self.files = files
        self.reader = reader
        self.ignore = ignore
        self.info = {}
        self.memo = {}
        self.row = None          # (function, table variable, row): the row of a local table under consideration
        self.stack = []
        self.home = [f for f in p.all(lambda q, fi, l: fi.endswith(tuple(files))) if not f.islambda]
        self.R = {f.usr: f for f in self.home}
        self.callers = {}
        layer = list(self.home)
        for k in range(3):
            nxt = []
            for f in layer:
                for n in f.calls():
                    u = n.g("u")
                    if not u:
                        continue
                    self.callers.setdefault(u, []).append((f, n))
                    if u not in self.R and u in p.src:
                        g = p.fn(u)
                        if k == 0 or g.ctor or len(g.blocks) <= 6:
                            self.R[u] = g
                            nxt.append(g)
            layer = nxt

    def fi(self, f):
        i = self.info.get(f.usr)
        if i is None:
            i = self.info[f.usr] = FnInfo(self, f)
        return i

    # ---- constants and comparisons -----------------------------------------------------------------------------
    def const(self, fi, n):
        n = strip(fi.f, n)
        if n.k in ("int", "bool"):
            return lit(int(n.g("v")))
        if n.k == "flt":
            return lit(float(n.g("v")))
        if n.k == "enum":
            return ("enum", enum_name(n))
        if n.k == "str":
            return lit(n.g("v"))
        if n.k == "null":
            return ("enum", "null")
        if n.k == "ctor" and "basic_string" in (n.g("q") or "") and len([i for i in n.c if i >= 0]) >= 1:
            return self.const(fi, fi.f.nodes[n.c[0]])
        if n.k == "ctor" and "basic_string" in (n.g("q") or "") and not n.c:
            return lit("")
        return None

    def gterm(self, fi, nid):
        """term of a compared expression, without elements"""
        al = self.E(fi.f, nid, None, labels=False)
        ts = {t for g, t in al}
        if len(ts) == 1:
            t = next(iter(ts))
            return t if t[0] not in ("?",) else None
        ts = {t for t in ts if t[0] not in ("lit", "enum", "?")}
        return next(iter(ts)) if len(ts) == 1 else None

    def equality(self, fi, nid, sense):
        """(term, literal) the condition implies when it has this outcome"""
        f = fi.f
        n = strip(f, f.nodes[nid])
        if n.k == "un" and n.g("op") == "!":
            return self.equality(fi, n.c[0], not sense)
        op, a, b = None, None, None
        if n.k == "bin" and n.g("op") in ("==", "!="):
            op, a, b = n.g("op"), f.nodes[n.c[0]], f.nodes[n.c[1]]
            # strcmp(a, b) == 0, a.compare(b) == 0
            for x, y in ((a, b), (b, a)):
                x = strip(f, x)
                if x.k == "call" and (x.g("q") or "").rsplit("::", 1)[-1] in ("strcmp", "compare", "strcasecmp") and len(x.c) == 2 and self.const(fi, y) == lit(0):
                    a, b = f.nodes[x.c[0]], f.nodes[x.c[1]]
                    break
        elif n.k == "call":
            name = (n.g("q") or "").rsplit("::", 1)[-1]
            if name in ("operator==", "operator!=") and len(n.c) == 2:
                op, a, b = name[8:], f.nodes[n.c[0]], f.nodes[n.c[1]]
            elif name in ("strcmp", "compare", "strcasecmp") and len(n.c) == 2:
                op, a, b = "!=", f.nodes[n.c[0]], f.nodes[n.c[1]]
        elif n.k == "ref" and fi.f.vars[n.g("d")].kind not in ("param",):
            # bool b = (x == "y"); if (b)
            ds = fi.reaching(nid, n.g("d"))
            if len(ds) == 1 and fi.defs[ds[0]][1] in ("decl", "asg") and fi.defs[ds[0]][3] is not None:
                r = strip(f, f.nodes[fi.defs[ds[0]][3]])
                if r.k in ("bin", "call", "un"):
                    return self.equality(fi, r.id, sense)
            return None
        if op is None or (op == "==") != sense:
            return None
        for x, y in ((a, b), (b, a)):
            c = self.const(fi, y)
            if c is not None and (c[0] == "enum" and c[1] != "null" or isinstance(c[1], str)) and c != ("enum", "null"):
                t = self.gterm(fi, x.id)
                if t is not None:
                    return t, c
        return None

    # ---- expressions -------------------------------------------------------------------------------------------
    def label(self, fi, t, nid, seen=()):
        """name(s) of the element a node term stands for"""
        fs = fi.facts(nid) if nid is not None else {}
        for k, ls in fs.items():
            if k[0] == "name" and k[1] == t:
                return "|".join(sorted(str(x[1]) for x in ls))
        if t[0] == "node":
            return t[1]
        if t[0] == "pnode" and t not in seen:
            res = set()
            for g, c in self.callers.get(t[1], ()):
                a = arg(g, c, t[2])
                if a is None:
                    continue
                gi = self.fi(g)
                for gd, x in self.E(g, a, None, labels=False):
                    if x[0] in ("node", "elem", "pnode"):
                        res.add(self.label(gi, x, a, seen + (t,)))
            res.discard("*")
            parts = set()
            for r in res:
                parts |= set(r.split("|"))
            if 0 < len(parts) <= 8:
                return "|".join(sorted(parts))
        return "*"

    def E(self, f, nid, bind=None, labels=True, depth=0):
        """alternatives of an expression: set of (guards, term)"""
        bk = None if bind is None else tuple(sorted((k, frozenset(v)) for k, v in bind.items()))
        key = (f.usr, nid, bk, labels, self.row)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack or len(self.stack) > 60:
            return frozenset(((frozenset(), ("?",)),))
        self.stack.append(key)
        try:
            r = self.E1(f, nid, bind, labels)
        finally:
            self.stack.pop()
        if len(r) > CAP:
            r = frozenset(((frozenset(), ("?",)),))
        r = frozenset(r)
        self.memo[key] = r
        return r

    def guards(self, fi, nid):
        res = set()
        for t, ls in fi.facts(nid).items():
            if t[0] != "name" and has(t, ("attr", "par", "text")):
                res.add((t, ls))
        return frozenset(res)

    def E1(self, f, nid, bind, labels):
        fi = self.fi(f)
        n = f.nodes[nid]
        none = frozenset()
        k = n.k

        def sub(i):
            return self.E(f, i, bind, labels)

        def one(t):
            return {(none, t)}

        def cross(fn, *ids):
            res = {(none, ())}
            for i in ids:
                a = sub(i)
                res = {(g | h, ts + (t,)) for g, ts in res for h, t in a}
                if len(res) > CAP:
                    return one(("?",))
            return {(g, fn(ts)) for g, ts in res}
        c = self.const(fi, n)
        if c is not None:
            return one(c)
        if k in ("cast", "stmt", "ret", "paren") and n.c:
            return sub(n.c[0])
        if k == "ctor" and (n.g("copy") or n.g("move")) and len(n.c) == 1:
            return sub(n.c[0])
        if k == "this":
            return one(("fld", "this"))
        if k == "cond":
            e = self.equality(fi, n.c[0], True)
            e2 = self.equality(fi, n.c[0], False)
            res = set()
            for j, ee in ((1, e), (2, e2)):
                for g, t in sub(n.c[j]):
                    gg = g | {(ee[0], frozenset((ee[1],)))} if ee and ee[0][0] != "name" else g
                    res.add((gg, t))
            return res
        if k == "ref":
            d = n.g("d")
            v = f.vars[d]
            if v.kind == "param":
                ds = fi.reaching(nid, d)
                res = set()
                if ds:
                    res |= self.from_defs(f, fi, ds, bind, labels)
                    if any(fi.defs[x][1] in ("asg",) for x in ds) and not self.entry_reaches(fi, nid, d):
                        return res
                i = f.params.index(d) if d in f.params else None
                if i is None:
                    return one(("?",))
                if is_node(v.t):
                    if bind is not None and i in bind:
                        return res | set(bind[i])
                    return res | one(("pnode", f.usr, i))
                if bind is not None and i in bind:
                    return res | set(bind[i])
                if bind is not None:
                    return res | one(("par", f.usr, i))
                cs = self.callers.get(f.usr, ())
                got = set()
                for g, c in cs:
                    a = arg(g, c, i)
                    if a is None:
                        continue
                    gi = self.fi(g)
                    gs = self.guards(gi, c.id) if labels else none
                    got |= {(h | gs, t) for h, t in self.E(g, a, None, labels)}
                return res | got if got else res | one(("par", f.usr, i))
            if v.kind in ("local", "var", "static"):
                if is_node(v.t):
                    ds = fi.reaching(nid, d)
                    ts = self.from_defs(f, fi, ds, bind, labels) if ds else set()
                    ts = {t for g, t in ts}
                    if len(ts) == 1 and next(iter(ts))[0] in ("node", "pnode") and next(iter(ts))[1] != "*":
                        return one(next(iter(ts)))
                    return one(("elem", f.usr, d))
                if v.outer:
                    return one(("fld", v.name))
                ds = fi.reaching(nid, d)
                if ds:
                    return self.from_defs(f, fi, ds, bind, labels)
                return one(("?",))
            cv = self.global_const(v)
            return one(cv if cv is not None else ("fld", v.name))
        if k == "mem":
            if n.c and n.c[0] >= 0:
                b = strip(f, f.nodes[n.c[0]])
                if n.g("f") == "second":
                    # entry found in a table of constants
                    x = b
                    while x.k == "call" and str(x.g("q", "")).rsplit("::", 1)[-1] in ("operator->", "operator*") and x.c:
                        x = strip(f, f.nodes[[i for i in x.c if i >= 0][0]])
                    al = {(g, t) for g, t in sub(x.id) if t[0] in ("lit", "enum")}
                    if al:
                        return al
                r = self.row_field(f, b, n)
                if r is not None:
                    return sub(r)
                # member of a local structure: what was stored there
                if b.k == "ref" and f.vars[b.g("d")].kind in ("local", "var"):
                    vals = [m for m in f.nodes if m.k == "asg" and m.g("op") == "=" and same_mem(f, f.nodes[m.c[0]], b.g("d"), n.g("f"))]
                    if vals:
                        res = set()
                        for m in vals:
                            gs = self.guards(fi, m.id)
                            res |= {(g | gs, t) for g, t in sub(m.c[1])}
                        return res
                if b.k == "ref" and f.vars[b.g("d")].kind == "param" and self.p.recs.get(n.g("cls")):
                    fs = [x["n"] for x in self.p.fields(n.g("cls"))]
                    if n.g("f") in fs:
                        j = fs.index(n.g("f"))
                        al = [(g, t) for g, t in sub(n.c[0]) if t[0] == "call" and t[1] == "" and len(t[2]) == len(fs)]
                        if al:
                            return {(g, t[2][j]) for g, t in al}
            return one(("fld", "%s.%s" % ((n.g("cls") or "").rsplit("::", 1)[-1], n.g("f"))))
        if k == "un":
            op = n.g("op")
            if op in ("*", "&", "+"):
                return sub(n.c[0])
            if op == "!":
                return self.boolean(f, fi, n, bind, labels, cross)
            return {(g, fold1(op, t)) for g, t in sub(n.c[0])}
        if k == "bin":
            op = n.g("op")
            if op in ("==", "!=", "&&", "||"):
                return self.boolean(f, fi, n, bind, labels, cross)
            if op == ",":
                return sub(n.c[1])
            return cross(lambda ts: fold2(op, *ts), *n.c)
        if k == "asg":
            return sub(n.c[1])
        if k == "sub":
            return cross(lambda ts: index(*ts), *n.c)
        if k == "new":
            for i in n.c:
                if i >= 0 and f.nodes[i].k == "ctor":
                    return one(("fld", "new " + (f.nodes[i].g("q") or "").rsplit("::", 1)[-1]))
            return one(("?",))
        if k == "ilist":
            if n.c and len(n.c) <= 6:
                return cross(lambda ts: ("call", "", ts), *[i for i in n.c if i >= 0])
            return one(("?",))
        if k in ("call", "ctor"):
            return self.call(f, fi, n, bind, labels, cross, one)
        return one(("?",))

    def boolean(self, f, fi, n, bind, labels, cross):
        """a comparison with a text: true under it, false otherwise"""
        none = frozenset()
        e = self.equality(fi, n.id, True)
        e2 = self.equality(fi, n.id, False)
        if e and has(e[0], ("attr", "par", "text")):
            return {(frozenset(((e[0], frozenset((e[1],))),)), lit(1)), (none, lit(0))}
        if e2 and has(e2[0], ("attr", "par", "text")):
            return {(frozenset(((e2[0], frozenset((e2[1],))),)), lit(0)), (none, lit(1))}
        if n.k == "bin" and n.g("op") == "||":
            a, b = self.E(f, n.c[0], bind, labels), self.E(f, n.c[1], bind, labels)
            if all(t[0] == "lit" for g, t in a | b):
                return {(g, t) for g, t in a | b}
        if n.k == "bin" and n.g("op") == "&&":
            a, b = self.E(f, n.c[0], bind, labels), self.E(f, n.c[1], bind, labels)
            if all(t[0] == "lit" and (t[1] if not g else not t[1]) for g, t in a | b):
                return {(g, t) for g, t in a | b}
        if n.k == "un":
            r = self.E(f, n.c[0], bind, labels)
            if all(t[0] == "lit" for g, t in r):
                return {(g, lit(0 if t[1] else 1)) for g, t in r}
            return {(g, fold1("!", t)) for g, t in r}
        return cross(lambda ts: fold2(n.g("op") or (n.g("q") or "").rsplit("operator", 1)[-1], *ts), *n.c)

    def global_const(self, v):
        for g in self.p.globals.values():
            if g.u == v.u and g.nodes:
                ls = [x for x in g.nodes if x.k in ("str", "int", "flt", "bool", "enum")]
                if len(ls) == 1 and (g.const or "const" in g.t) and not any(x.k in ("call", "ref") for x in g.nodes):
                    x = ls[0]
                    neg = any(y.k == "un" and y.g("op") == "-" for y in g.nodes)
                    if x.k == "str":
                        return lit(x.g("v"))
                    if x.k == "enum":
                        return ("enum", enum_name(x))
                    w = float(x.g("v"))
                    return lit(-w if neg else w)
        return None

    def map_table(self, f, fi, nid):
        """[(key, value)] of a lookup table of constants that is never changed"""
        n = strip(f, f.nodes[nid])
        if "map" not in (n.t or "") and n.k != "ref":
            return None
        if n.k == "ref":
            v = f.vars[n.g("d")]
            if v.kind in ("local", "var", "static"):
                ds = [x for x in fi.defs if x[0] == n.g("d")]
                if len(ds) == 1 and ds[0][1] == "decl" and ds[0][3] is not None and "map" in v.t:
                    return self.pairs(f, fi, ds[0][3])
                return None
            for g in self.p.globals.values():
                if g.u == v.u and g.nodes and "map" in g.t:
                    return pairs_global(g)
        return None

    def rows(self, f, fi, d):
        """rows of a local table of structures: lists of node ids"""
        ds = [x for x in fi.defs if x[0] == d]
        if len(ds) != 1 or ds[0][1] != "decl" or ds[0][3] is None:
            return []
        n = f.nodes[ds[0][3]]
        while n.k != "ilist" and len([i for i in n.c if i >= 0]) == 1:
            n = f.nodes[n.c[0]]
        rs = [f.nodes[i] for i in n.c if i >= 0]
        if n.k != "ilist" or not rs or any(r.k != "ilist" for r in rs):
            return []
        return [list(r.c) for r in rs]

    def row_field(self, f, b, n):
        """table[i].field for the row under consideration"""
        if self.row is None or self.row[0] != f.usr or b.k != "sub":
            return None
        a = strip(f, f.nodes[b.c[0]])
        if a.k != "ref" or a.g("d") != self.row[1]:
            return None
        if n.g("cls") not in self.p.recs:
            return None
        fs = [x["n"] for x in self.p.fields(n.g("cls"))]
        rs = self.rows(f, self.fi(f), a.g("d"))
        if n.g("f") not in fs or self.row[2] >= len(rs):
            return None
        r, j = rs[self.row[2]], fs.index(n.g("f"))
        return r[j] if j < len(r) and r[j] >= 0 else None

    def table_sink(self, f, fi, n, put):
        """*table[i].pointer = value: one sink per row"""
        l = strip(f, f.nodes[n.c[0]])
        if l.k != "un" or l.g("op") != "*":
            return
        m = strip(f, f.nodes[l.c[0]])
        if m.k != "mem" or not m.c or m.c[0] < 0:
            return
        b = strip(f, f.nodes[m.c[0]])
        if b.k != "sub" or strip(f, f.nodes[b.c[0]]).k != "ref":
            return
        d = strip(f, f.nodes[b.c[0]]).g("d")
        for i in range(len(self.rows(f, fi, d))):
            self.row = (f.usr, d, i)
            try:
                t = self.row_field(f, b, m)
                t = strip(f, f.nodes[t]) if t is not None else None
                if t is not None and t.k == "un" and t.g("op") == "&":
                    key = member(f, strip(f, f.nodes[t.c[0]]))
                    if key:
                        put(key, self.E(f, n.c[1]), f, n)
            finally:
                self.row = None

    def pairs(self, f, fi, nid):
        """constant pairs in an initialiser"""
        res = []
        work = [nid]
        while work:
            m = f.nodes[work.pop(0)]
            kids = [i for i in m.c if i >= 0]
            if m.k in ("ctor", "ilist") and len(kids) == 2:
                a, b = self.const(fi, f.nodes[kids[0]]), self.const(fi, f.nodes[kids[1]])
                if a is not None and b is not None:
                    res.append((a, b))
                    continue
            work += kids
        return res

    def entry_reaches(self, fi, nid, d):
        """may the value the parameter came with still be there?"""
        w = fi.where.get(nid)
        if w is None:
            return True
        for j, x in fi.at.get(w[0], ()):
            if j < w[1] and fi.defs[x][0] == d and fi.defs[x][1] == "asg":
                return False
        seen, work = {w[0]}, [w[0]]
        while work:
            b = work.pop()
            if b == fi.f.entry:
                return True
            for q in fi.preds[b]:
                if q in seen:
                    continue
                if any(fi.defs[x][0] == d and fi.defs[x][1] == "asg" for j, x in fi.at.get(q, ())):
                    continue
                seen.add(q)
                work.append(q)
        return False

    def from_defs(self, f, fi, ds, bind, labels):
        res = set()
        for i in ds:
            v, kind, n, rhs = fi.defs[i]
            gs = self.guards(fi, n.id) if labels else frozenset()
            if kind in ("decl", "asg"):
                if rhs is None:
                    if "basic_string" in f.vars[v].t:
                        res.add((gs, lit("")))
                    continue
                for g, t in self.E(f, rhs, bind, labels):
                    res.add((g | gs, t))
            elif kind.startswith("out"):
                j = int(kind[3:])
                r = self.out_value(f, fi, n, j, bind, labels)
                res |= {(g | gs, t) for g, t in r}
            elif kind[:-1] in ("+", "-", "*", "/") and rhs is not None:
                for g, t in self.E(f, rhs, bind, labels):
                    res.add((g | gs, ("op", kind, t)))
            else:
                res.add((gs, ("?",)))
        return res

    def out_value(self, f, fi, n, j, bind, labels):
        """what a callee stores through a reference parameter"""
        u = n.g("u")
        if u and u in self.p.src:
            g = self.p.fn(u)
            if j < len(g.params) and len(self.stack) < 40:
                b = self.binding(f, n, bind, labels)
                d = g.params[j]
                gi = self.fi(g)
                res = set()
                for x in gi.defs:
                    if x[0] == d and x[1] == "asg" and x[3] is not None:
                        gs = self.guards(gi, x[2].id)
                        res |= {(h | subst_g(gs, b), t) for h, t in self.E(g, x[3], b, labels)}
                for m in g.nodes:          # *out = value
                    if m.k == "asg" and m.g("op") == "=":
                        l = strip(g, g.nodes[m.c[0]])
                        if l.k == "un" and l.g("op") == "*":
                            l = strip(g, g.nodes[l.c[0]])
                            if l.k == "ref" and l.g("d") == d:
                                res |= self.E(g, m.c[1], b, labels)
                if res:
                    return res
        return {(frozenset(), ("?",))}

    def binding(self, f, n, bind, labels):
        g = self.p.fn(n.g("u"))
        res = {}
        for i in range(len(g.params)):
            a = arg(f, n, i)
            if a is not None:
                res[i] = frozenset(self.E(f, a, bind, labels))
        return res

    def call(self, f, fi, n, bind, labels, cross, one):
        q = n.g("q") or ""
        name = q.rsplit("::", 1)[-1]
        kids = [i for i in n.c if i >= 0]
        none = frozenset()
        if name in self.reader or ("pugi::" in q and name == "attribute"):
            if len(kids) >= 2:
                # reader object, node, name / node, name
                nodes = [i for i in kids if is_node(f.nodes[i].t) or is_node(strip(f, f.nodes[i]).t)]
                names = [t for i in kids for g, t in self.E(f, i, bind, labels) if t[0] == "lit" and isinstance(t[1], str)]
                if nodes and names:
                    nts = {t for g, t in self.E(f, nodes[0], bind, labels)}
                    lb = "*"
                    if labels:
                        ls = set()
                        for t in nts:
                            ls |= set(self.label(fi, t, n.id).split("|"))
                        lb = "|".join(sorted(ls))
                    else:
                        lb = ""
                    return {(none, ("attr", lb, x[1])) for x in names}
            return one(("?",))
        if "pugi::" in q:
            if name in ("begin", "operator*", "operator->", "end") and kids and not is_node(f.nodes[kids[0]].t):
                r = {(none, t) for g, t in self.E(f, kids[0], bind, labels) if t[0] == "node"}
                return r or one(("node", "*"))
            if name in ("child", "next_sibling", "children", "previous_sibling", "find_child", "append_child") and len(kids) == 2:
                r = {t for g, t in self.E(f, kids[1], bind, labels) if t[0] == "lit"}
                return {(none, ("node", x[1])) for x in r if isinstance(x[1], str)} or one(("node", "*"))
            if name in ("next_sibling", "previous_sibling") and len(kids) == 1:
                return self.E(f, kids[0], bind, labels)
            if name == "name":
                r = {t for g, t in self.E(f, kids[0], bind, labels)}
                return {(none, ("name", t)) for t in r}
            if name in ("child_value", "text"):
                r = {t for g, t in self.E(f, kids[0], bind, labels)}
                extra = [t[1] for i in kids[1:] for g, t in self.E(f, i, bind, labels) if t[0] == "lit"]
                return {(none, ("text", extra[0] if extra else self.label(fi, t, n.id) if labels else "")) for t in r}
            if name in CONV and kids:
                return self.E(f, kids[0], bind, labels)
            if name in ("empty", "operator bool", "operator!", "operator bool (*)()") or name.startswith("operator"):
                return {(g, ("call", "has", (t,))) for g, t in self.E(f, kids[0], bind, labels)} if kids else one(("?",))
            if is_node(n.t):
                return one(("node", "*"))
            return one(("?",))
        if n.k == "ctor" and "basic_string" in q and kids:
            return self.E(f, kids[0], bind, labels)
        if name in CONV and kids and (q.startswith("std::") or "::" not in q or name in ("strtoi", "strtod")):
            return self.E(f, kids[0], bind, labels)
        if q.startswith("std::") or "::" not in q:
            if name in ("empty", "length", "size", "fabs", "abs", "sqrt", "pow", "isnan", "max", "min", "tolower", "toupper", "sin", "cos", "tan", "find", "substr", "fmod") and len(kids) <= 3 and not (name == "find" and "map" in q):
                return cross(lambda ts: ("call", name, ts), *kids)
            if name in ("operator[]", "at", "find") and len(kids) == 2:
                m = self.map_table(f, fi, kids[0])
                if m:
                    res = set()
                    for g, t in self.E(f, kids[1], bind, labels):
                        for a, b in m:
                            res.add((g | {(t, frozenset((a,)))}, b))
                    if len(res) <= CAP:
                        return res
                return cross(lambda ts: index(*ts), *kids)
            if name == "operator+" and len(kids) == 2:
                return cross(lambda ts: ("op", "+") + ts, *kids)
            if name in ("operator==", "operator!="):
                return self.boolean(f, fi, n, bind, labels, cross)
            if name in ("make_shared", "make_unique"):
                return one(("fld", name))
            if n.k == "ctor" and kids and ("vector" in q or "array" in q) and strip(f, f.nodes[kids[0]]).k == "ilist":
                return self.E(f, strip(f, f.nodes[kids[0]]).id, bind, labels)
            if n.k == "ctor" and len(kids) == 1 and ("shared_ptr" in q or "optional" in q or "unique_ptr" in q):
                return self.E(f, kids[0], bind, labels)
        u = n.g("u")
        if u and u in self.p.src and len(self.stack) < 40:
            g = self.p.fn(u)
            rets = [m for m in g.nodes if m.k == "ret" and m.c and m.c[0] >= 0]
            if rets and len(g.blocks) <= 45 and not g.ctor:
                b = self.binding(f, n, bind, labels)
                gi = self.fi(g)
                res = set()
                for m in rets:
                    gs = self.guards(gi, m.id)
                    for h, t in self.E(g, m.c[0], b, labels):
                        res |= {(hh, t) for hh in (h | subst_g(gs, b),)}
                if res and all(t[0] in ("lit", "enum") or has(t, ("attr", "text")) and not has(t, ("?", "par")) for h, t in res) and len(res) <= CAP:
                    if any(has(t, ("attr", "text")) or any(has(x, ("attr", "text")) for x, ls in h) for h, t in res):
                        return res
        a = kids[1:] if n.g("recv") else kids
        if len(a) <= 6:
            short = name if n.k == "call" else "new " + q.rsplit("::", 2)[-2] if "::" in q else name
            return cross(lambda ts: ("call", short, ts), *a)
        return one(("?",))

    # ---- sinks -------------------------------------------------------------------------------------------------
    def sinks(self):
        """{sink: {(guards, term): [locations]}} for members and for arguments of functions that do not merely store them"""
        res = {}

        def put(key, al, f, n):
            gs = self.guards(self.fi(f), n.id)
            for g, t in al:
                res.setdefault(key, {}).setdefault((frozenset(resolve(g | gs)), t), []).append(f.loc(n))
        for u, f in sorted(self.R.items(), key=lambda x: (x[1].file, x[1].line)):
            fi = self.fi(f)
            for n in f.nodes:
                if n.id not in fi.where:
                    continue
                if n.k == "asg":
                    l = strip(f, f.nodes[n.c[0]])
                    m = member(f, l)
                    if self.is_home(f):
                        self.table_sink(f, fi, n, put)
                    if m:
                        put(m + ("" if n.g("op") == "=" else " " + n.g("op")), self.E(f, n.c[1]), f, n)
                elif n.k == "cinit":
                    if n.c and n.c[0] >= 0 and n.g("f"):
                        put("%s::%s" % ((f.cls or "").rsplit("::", 1)[-1], n.g("f")), self.E(f, n.c[0]), f, n)
                elif n.k in ("call", "ctor"):
                    self.call_sink(f, fi, n, put)
        return res

    def created(self):
        """{class: {element names known where an object of the class is created: locations}}"""
        res = {}
        for f in self.home:
            fi = self.fi(f)
            for n in f.nodes:
                if n.k != "new" and not (n.k == "call" and (n.g("q") or "").rsplit("::", 1)[-1] in ("make_shared", "make_unique")):
                    continue
                if n.k == "new":
                    cs = [f.nodes[i] for i in n.c if i >= 0 and f.nodes[i].k == "ctor"]
                    if not cs:
                        continue
                    cls = "::".join(x for x in cs[0].g("q").split("::")[:-1] if x and x[0].isupper())
                else:
                    m = re.search(r"_ptr<([^,<>]*)", n.t or "")
                    if not m:
                        continue
                    cls = "::".join(x.strip() for x in m.group(1).split("::") if x.strip() and x.strip()[0].isupper())
                names = set()
                for t, ls in fi.facts(n.id).items():
                    if t[0] == "name":
                        names |= {x[1] for x in ls if isinstance(x[1], str)}
                if names:
                    e = res.setdefault(cls, {})
                    for x in names:
                        e.setdefault(x, []).append(f.loc(n))
        return res

    def tuples(self):
        """{constructor: {(constant and file arguments together): locations}}"""
        res = {}
        for f in self.home:
            fi = self.fi(f)
            for n in f.nodes:
                if n.k != "ctor" or n.id not in fi.where or (n.g("q") or "").startswith("std::") or "pugi" in (n.g("q") or ""):
                    continue
                al = [()]
                for i in range(12):
                    a = arg(f, n, i)
                    if a is None:
                        break
                    ts = set()
                    for g, t in self.E(f, a):
                        if t[0] == "enum" and t[1] != "null" or has(t, ("attr",)) and t[0] == "attr":
                            ts.add(show(t))
                        elif t[0] in ("node", "elem", "pnode"):
                            x = self.label(fi, t, a)
                            if "*" not in x:
                                ts.add("<%s>" % x)
                    if len(ts) == 1:
                        al = [x + (y,) for x in al for y in ts]
                    elif ts:
                        al = [x + ("-",) for x in al]
                x = al[0]
                if any("@" in y or y[0] == "<" for y in x) and any("@" not in y and y[0] not in "<-" for y in x):
                    res.setdefault("new " + n.g("q").rsplit("::", 1)[-1], {}).setdefault(" ".join(x), []).append(f.loc(n))
        return res

    def call_sink(self, f, fi, n, put):
        q = n.g("q") or ""
        name = q.rsplit("::", 1)[-1]
        if any(x in q for x in NOISE) or "pugi::" in q or name in self.reader or name in self.ignore:
            return
        kids = [i for i in n.c if i >= 0]
        if n.g("recv") and kids:
            m = member(f, strip(f, f.nodes[kids[0]]))
            if name == "operator=" and len(kids) == 2:
                if m:
                    put(m, self.E(f, kids[1]), f, n)
                return
            if name in ("push_back", "emplace_back", "insert", "emplace", "push_front"):
                if m:
                    for j, i in enumerate(kids[1:]):
                        put(m + "[]" + (str(j) if j else ""), self.E(f, i), f, n)
                return
        if q.startswith("std::") or "::" not in q and n.g("u") not in self.p.src:
            return
        if n.g("recv") and kids and n.k == "call" and n.g("u") in self.R:
            m = member(f, strip(f, f.nodes[kids[0]]))
            if m and len(kids) > 2:
                for i in range(len(kids) - 1):
                    put("%s.%s #%d" % (m, name, i), self.E(f, kids[i + 1]), f, n)
        if not self.is_home(f) or "::" not in q:
            return
        for i in range(12):
            a = arg(f, n, i)
            if a is None:
                break
            if is_node(f.nodes[a].t) or n.g("u") in self.R and self.stored(n.g("u"), i):
                continue
            cls = q.rsplit("::", 2)[-2] if "::" in q else ""
            put("%s::%s #%d" % (cls, name, i), self.E(f, a), f, n)

    def stored(self, u, i):
        g = self.p.fn(u)
        if i >= len(g.params):
            return False
        if self.is_home(g):
            return True
        key = ("stored", u, i)
        if key in self.memo:
            return self.memo[key]
        d = g.params[i]
        res = False
        self.memo[key] = False
        for n in g.nodes:
            rhs = None
            if n.k == "asg" and member(g, strip(g, g.nodes[n.c[0]])):
                rhs = n.c[1]
            elif n.k == "cinit" and n.c and n.c[0] >= 0:
                rhs = n.c[0]
            elif n.k in ("call", "ctor") and n.g("recv") and (n.g("q") or "").rsplit("::", 1)[-1] in ("operator=", "push_back", "emplace_back") and len(n.c) == 2:
                rhs = n.c[1]
            elif n.k == "ctor" or n.k == "call":
                for j in range(12):
                    a = arg(g, n, j)
                    if a is None:
                        break
                    if mentions_var(g, a, d) and n.g("u") in self.R and n.g("u") != u and self.stored(n.g("u"), j):
                        res = True
            if rhs is not None and mentions_var(g, rhs, d):
                res = True
        self.memo[key] = res
        return res

    def is_home(self, g):
        return g.file.endswith(tuple(self.files)) and not g.file.endswith(".hpp")


def pairs_global(g):
    """keys and values of a global table: literals in the order of the initialiser"""
    ls = [x for x in g.nodes if x.k in ("str", "int", "flt", "bool", "enum")]
    if len(ls) < 2 or len(ls) % 2:
        return None
    res = []
    for a, b in zip(ls[::2], ls[1::2]):
        if a.k != "str":
            return None
        res.append((lit(a.g("v")), ("enum", enum_name(b)) if b.k == "enum" else lit(b.g("v"))))
    return res


def subst_g(gs, b):
    """guards on parameters of an inlined callee, in terms of its arguments"""
    res = set()
    for t, ls in gs:
        if t[0] == "par":
            ts = {x for g, x in b.get(t[2], ()) if x[0] not in ("lit", "enum", "?")}
            if len(ts) == 1:
                res.add((next(iter(ts)), ls))
        else:
            res.add((t, ls))
    return frozenset(res)


def resolve(gs):
    res = set()
    for t, ls in gs:
        if has(t, ("par", "?")):
            continue
        t = nolabel(t)
        if not has(t, ("attr", "text")):
            continue
        res.add((show(t), "|".join(sorted(str(show(x)).strip("'") for x in ls))))
    return res


def nolabel(t):
    if t[0] == "attr":
        return ("attr", "", t[2])
    return tuple(nolabel(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(nolabel(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x for x in t)


def index(a, i):
    if a[0] == "call" and a[1] == "" and i[0] == "lit" and isinstance(i[1], (int, float)) and 0 <= i[1] < len(a[2]):
        return a[2][int(i[1])]
    return ("op", "[]", a, i)


def fold1(op, t):
    if t[0] == "lit" and op == "-" and not isinstance(t[1], str):
        return lit(-t[1])
    if t[0] == "op" and t[1] == op and len(t) == 3:
        return t[2]
    return ("op", op, t)


def fold2(op, a, b):
    if a[0] == "lit" and b[0] == "lit" and not isinstance(a[1], str) and not isinstance(b[1], str):
        try:
            x, y = a[1], b[1]
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}.get(op)
            if v:
                return lit(v())
        except Exception:
            pass
    return ("op", op, a, b)


def enum_name(n):
    return (n.g("q") or n.g("n") or str(n.g("v"))).split("::")[-1]


def is_node(t):
    return "pugi::xml_node" in (t or "") and "iterator" not in t


def arg(f, n, i):
    kids = list(n.c)
    if n.g("recv"):
        kids = kids[1:]
    return kids[i] if i < len(kids) and kids[i] >= 0 else None


def member(f, l):
    ix = ""
    while l.k in ("sub",) or (l.k == "un" and l.g("op") == "*") or (l.k == "call" and (l.g("q") or "").rsplit("::", 1)[-1] in ("operator[]", "at", "back", "operator->", "operator*", "front")):
        if not l.c or l.c[0] < 0:
            return None
        if len(l.c) == 2 and l.c[1] >= 0:
            i = strip(f, f.nodes[l.c[1]])
            if i.k == "enum":
                ix = "[%s]" % enum_name(i)
            elif i.k == "int":
                ix = "[%s]" % i.g("v")
        l = strip(f, f.nodes[l.c[0]])
    if l.k == "mem":
        c = (l.g("cls") or "")
        c = re.sub(r"\(anonymous[^)]*\)|\(unnamed[^)]*\)", "", c)
        parts = [x for x in c.split("::") if x]
        return "%s::%s%s" % (parts[-1] if parts else "", l.g("f"), ix)
    return None


def same_mem(f, l, d, fld):
    l = strip(f, l)
    if l.k != "mem" or l.g("f") != fld or not l.c or l.c[0] < 0:
        return False
    b = strip(f, f.nodes[l.c[0]])
    return b.k == "ref" and b.g("d") == d


def mentions_var(f, nid, d):
    work = [nid]
    while work:
        n = f.nodes[work.pop()]
        if n.k == "ref" and n.g("d") == d:
            return True
        work += [i for i in n.c if i >= 0]
    return False


def table(sinks):
    """{sink: {alternative text: locations}}, only sinks that depend on the file"""
    res = {}
    for key, al in sinks.items():
        rows = {}
        used = False
        for (g, t), locs in al.items():
            if has(t, ("par",)) or t[0] == "?":
                continue
            if has(t, ("attr", "text")) or g:
                used = True
            elif t[0] not in ("lit", "enum"):
                continue
            s = show(t)
            if g:
                s = "[" + " & ".join(sorted("%s=%s" % x for x in g)) + "] " + s
            rows.setdefault(s, []).extend(locs)
        if used:
            res[key] = rows
    return res
