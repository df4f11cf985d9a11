"""Tables of look-ups: which element of a container a function selects, for a container of known contents."""
import re
import algebra as al
from flow import NULL, addr, is_c
from trace import Trace, explore, loc


class T(Trace):
    limit = 14
    objects = True


def ptr(name):
    return addr(("g", name))


def quiet(name, q, r, vals, n):
    if "ogger" in q or "LOG_" in name or name in ("format", "Log"):
        return "", NULL
    return None


def fill(st, fn, container, items, tag="E"):
    """container of pointers to elements with the given members"""
    st.env[loc(container + ".#size", fn)] = ("c", len(items))
    for i, it in enumerate(items):
        st.env[loc("%s[%d]" % (container, i), fn)] = ptr("%s%d" % (tag, i))
        for k, v in it.items():
            st.env[loc("%s%d.%s" % (tag, i, k))] = ("c", v)


def select(ctx, prog, f, setup, consts, want, what, watch=quiet, limit=None):
    """the function returns `want`: a value, None for a null pointer"""
    t = T(watch)
    if limit:
        t.limit = limit
    rs = explore(prog, f, t, consts, None, lambda st: setup(st, f))
    ctx.check(bool(rs), what, f.loc(), "does not return")
    got = []
    for r in rs:
        ctx.count("cases analysed")
        w = NULL if want is None else ptr(want) if isinstance(want, str) else ("c", want)
        v = r.ret
        if v is None or not (is_c(v) or v[0] == "&"):
            ctx.count("undetermined results")
            continue
        got.append((v == w or (is_c(v) and is_c(w) and v[1] == w[1]), "gives %s instead of %s" % (show(v), show(w))))
    settle(ctx, what, f.loc(), got)


def settle(ctx, what, where, got):
    """from storage of known contents there is one result: several mean that the analysis lost track on the way"""
    bad = [m for ok, m in got if not ok]
    if got and bad and len(bad) < len(got):
        ctx.count("undetermined results")
        bad = []
    if got:
        ctx.check(not bad, what, where, bad[0] if bad else "")


def show(v):
    return "nothing" if v == NULL else v[1][1] if v[0] == "&" and v[1][0] == "g" else al.poly_str(v)


def by_key(ctx, prog, fq, container, member, keys, other=None, missing=None):
    """the element whose member equals the argument, else nothing"""
    f = prog.q1(fq)
    n = fq.rsplit("::", 1)[-1]
    for i, k in enumerate(keys):
        def setup(st, f):
            fill(st, f, container, [{member: x} for x in keys])
            if other:
                fill(st, f, other, [])
        select(ctx, prog, f, setup, {"$0": k}, "E%d" % i, "%s of element %d" % (n, i))
    def setup(st, f):
        fill(st, f, container, [{member: x} for x in keys])
        if other:
            fill(st, f, other, [])
    select(ctx, prog, f, setup, {"$0": "none" if isinstance(keys[0], str) else 99}, missing, "%s of a missing element" % n)


def by_index(ctx, prog, fq, container, n=3, missing=None, values=None):
    f = prog.q1(fq)
    nm = fq.rsplit("::", 1)[-1]
    for i in list(range(n + 1)):
        def setup(st, f):
            if values:
                st.env[loc(container + ".#size", f)] = ("c", n)
                for j in range(n):
                    st.env[loc("%s[%d]" % (container, j), f)] = ("c", values[j])
            else:
                fill(st, f, container, [{}] * n)
        select(ctx, prog, f, setup, {"$0": i}, missing if i >= n else values[i] if values else "E%d" % i, "%s of index %d" % (nm, i))


# ---- tables of values ------------------------------------------------------------------------------------------------
def known(p, extra=""):
    """a formula over nothing but the storage that was set up"""
    for m in p:
        for a, e in m:
            if re.search(r"\w\.\w+\(", a):
                return False        # a call that was not resolved
            b = re.sub(r"\b[A-Z]\d[\w.\[\]]*|\bthis\b[\w.\[\]]*|\$\d+[\w.]*|\b(sin|cos|tan|atan|atan2|abs|sqrt|pow|max|min|hypot)\b" + extra, "", a)
            if re.search(r"[A-Za-z?]", b):
                return False
    return True


def close(g, w):
    """same formula up to rounding of constants"""
    g = {m: c for m, c in g.items() if abs(float(c)) > 1e-15 or m in w}
    if g == w:
        return True
    return set(g) == set(w) and all(abs(float(g[m]) - float(w[m])) <= 1e-9 * max(1, abs(float(w[m]))) for m in g)


def deref(i):
    """what the i-th parameter points or refers to"""
    return lambda r: r.eng.read(r.st, ("d", ("init", loc("$%d" % i, r.fn))))


def member(r, name):
    """member of the returned object"""
    if r.ret is None:
        return None
    if r.ret[0] in ("agg", "init"):
        return r.eng.read(r.st, ("f", ("t", r.ret) if r.ret[0] == "agg" else r.ret[1], name))
    return None


class Tables:
    def __init__(self, ctx, prog, ns, extra=""):
        self.ctx, self.p, self.ns, self.extra = ctx, prog, ns, extra
        self.odd = []
        self.limit = None       # size of the functions analysed in place
        self.maxd = 0
        self.no = 0
        self.pending = {}

    def runs(self, fq, setup=None, consts=None, watch=quiet, limit=None, pick=None, inline=8, never=(), recursion=0):
        fs = [f for f in self.p.q(self.ns + fq) if pick is None or pick(f)]
        if not fs:
            from extract import Broken
            raise Broken("function %s not found" % fq)
        self.no += 1
        t = T(watch, never=never)
        t.max_inline = inline
        t.recursion = recursion
        if limit or self.limit:
            t.limit = limit or self.limit
        if self.maxd:
            t.maxd = self.maxd
        f = fs[0]
        rs = explore(self.p, f, t, consts, None, (lambda st: setup(st, f)) if setup else None)
        return f, rs, t

    def judge(self, what, f, v, want):
        """v is the formula `want`; '@x' stands for a pointer to x, None for a null pointer, True and False for a truth value"""
        self.ctx.count("cases analysed")
        g = None if v is None else al.poly(v)
        if v is None:
            ok = msg = None
        elif want is None or (isinstance(want, str) and want.startswith("@")):
            w = NULL if want is None else ptr(want[1:])
            ok = v == w if is_c(v) or v[0] == "&" else None
            msg = "gives %s instead of %s" % (show(v), "nothing" if want is None else want[1:])
        elif isinstance(want, bool):
            ok = bool(v[1]) == want if is_c(v) else None
            msg = "gives %s instead of %s" % (ok == want, want)
        else:
            w = al.expect(want) if isinstance(want, str) else al.poly(("c", want))
            ok = close(g, w) if known(g, self.extra) else None
            msg = "gives %s instead of %s" % (al.pstr(g), al.pstr(w))
        if ok is None:
            self.ctx.count("undetermined results")
            self.odd.append((what, "" if v is None else al.pstr(g)))
        else:
            self.pending.setdefault((self.no, what, f.loc()), []).append((ok, msg))

    def ok(self, what, f, cond, msg):
        self.pending.setdefault((self.no, what, f.loc()), []).append((bool(cond), msg))

    def finish(self):
        for (no, what, where), got in self.pending.items():
            settle(self.ctx, what, where, got)
            if len({ok for ok, m in got}) == 2:
                self.odd.append((what, "several results"))
        self.pending = {}
        for x in self.odd if self.ctx.tier == "debug" else ():
            print(x)

    def value(self, what, fq, setup, consts, want, get=None, when=None, **kw):
        """on every path (those selected by `when`) the result, or what get(run) reads, is `want`"""
        f, rs, t = self.runs(fq, setup, consts, **kw)
        self.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for r in rs:
            if when is None or when(r):
                self.judge(what, f, r.ret if get is None else get(r), want)

    def values(self, what, fq, setup, consts, wants, **kw):
        """wants: {label: (get, want)}"""
        f, rs, t = self.runs(fq, setup, consts, **kw)
        self.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for r in rs:
            for k, (g, w) in wants.items():
                self.judge(what + ", " + k, f, r.ret if g is None else g(r), w)
