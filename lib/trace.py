"""Decision tables: what a function does, for each combination of the conditions that matter.

A run analyses one function from a state in which some storage is given constant values; calls of interest become events
in the order they happen, everything small or local is analysed in place, loops are taken not at all or once.
"""
import algebra as al
from flow import Client, Engine, is_c, query

THIS = ("d", ("init", ("v", 0, "this")))


def loc(path, fn=None):
    """'this.a.b', 'this.ptr->a' or '$0.a' (parameter) -> location"""
    parts = path.replace("->", ".*.").split(".")
    if parts[0] == "this":
        l = THIS
    elif parts[0].startswith("$"):
        p = fn.params[int(parts[0][1:])]
        l = ("v", 0, p, fn.vars[p].name)
        if len(parts) > 1:
            l = ("d", ("init", l))
    else:
        l = ("g", parts[0])
    for x in parts[1:]:
        if x == "*":
            l = ("d", ("init", l))
        elif x.endswith("]"):
            a, _, i = x[:-1].partition("[")
            l = ("i", ("f", l, a), ("c", int(i)))
        else:
            l = ("f", l, x)
    return l


class Trace(Client):
    once = True
    max_inline = 5
    last = None         # receiver and arguments of the call being watched
    limit = 6           # functions with at most this many blocks are analysed in place

    def __init__(self, watch, files=(), never=(), writes=None):
        self.watch = watch              # (name, q, recv path, arg strings, node) -> None | event | (event, value[, [(location, value)] or a function of the state giving them])
        self.files = files
        self.never = never
        self.writes = writes            # (path, value string, node) -> event or None
        self.sites = {}

    def inline(self, eng, fn, n):
        if fn.name in self.never:
            return False
        return len(fn.blocks) <= self.limit or bool(self.files and fn.file.endswith(self.files))

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        vals = [eng.aval(st, a) for a in args]
        Trace.last = recv, args
        r = self.watch(name, q, al.path(recv) if recv is not None else None, vals, n)
        if r is None:
            return None
        if isinstance(r, tuple):
            ev, v = r[:2]
            if callable(v):
                v = v(eng, st)
            upd = r[2] if len(r) > 2 else ()
            for l, x in (upd(eng, st) if callable(upd) else upd):
                st.env[l if isinstance(l, tuple) else loc(l)] = x
        else:
            ev, v = r, ("call", q, (), n.id, eng.ctx)
        if ev:
            st.ev = st.ev + (ev,)
            self.sites.setdefault(ev, n)
        return [(st, v)]

    def write(self, eng, st, n, l, val):
        if self.writes:
            e = self.writes(al.path(l), al.poly_str(val), n)
            if e:
                st.ev = st.ev + (e,)
                self.sites.setdefault(e, n)

    def part(self, eng, st):
        return st.ev


class Run:
    def __init__(self, st, ret, eng, fn):
        self.st, self.ret, self.eng, self.fn = st, ret, eng, fn
        self.ev = st.ev

    def value(self, path):
        return self.eng.read(self.st, loc(path, self.fn))

    def const(self, path):
        v = self.value(path)
        return v[1] if is_c(v) else None

    def unchanged(self, path):
        v = self.value(path)
        return v == ("init", loc(path, self.fn))

    def truth(self, v):
        return query(self.st, v)

    def has(self, ev):
        return ev in self.ev

    def before(self, a, b):
        """every b is preceded by an a"""
        return all(a in self.ev[:i] for i, e in enumerate(self.ev) if e == b)


def opaque(q, n, *vals):
    return ("call", q, tuple(vals), n.id, 0)


def explore(prog, fn, client, consts=None, facts=None, more=None):
    eng = Engine(prog, client)

    def setup(st):
        for p, v in (consts or {}).items():
            st.env[loc(p, fn)] = ("c", v)
        for p, v in (facts or {}).items():
            st.facts[("nz", ("init", loc(p, fn)))] = v
        if more:
            more(st)
    return [Run(st, v, eng, fn) for st, v in eng.run(fn, setup)]
