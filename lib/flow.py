"""Forward dataflow over the extractor's control flow graphs.

The abstract state maps storage locations to value terms (value numbering) and holds branch facts about those terms.
States are kept apart by the facts they were reached under (trace partitioning, capped), merged at loop heads with
phi terms, and iterated to a fixpoint. Helper functions are analysed in the caller's state (context-sensitive), so
moving code into a helper does not change the result. There is no solver: a fact is either implied by the recorded
facts (equality, ordering closure over differences) or unknown.
"""
import math
import re
from extract import Broken

NULL = ("c", 0)
TRUE = ("c", 1)
MAXD = 12          # states kept apart per block
CONTAINERS = ("vector", "list", "map", "set", "deque", "array", "basic_string")
ALGOS = {"std::" + x for x in ("find_if", "find_if_not", "any_of", "all_of", "none_of", "for_each", "count_if")}
MAXDEPTH = 14      # depth of a value term before it is summarised


def is_c(v):
    return v[0] == "c"


def depth(v, lim=40):
    if not isinstance(v, tuple) or lim == 0:
        return 0
    return 1 + max([depth(x, lim - 1) for x in v if isinstance(x, tuple)] or [0])


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, t):
                return True
    return False


def mentions_pred(v, pred):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            return True
        for x in v:
            if isinstance(x, tuple) and mentions_pred(x, pred):
                return True
    return False


def show(v):
    """readable form of a value or location"""
    if not isinstance(v, tuple):
        return str(v)
    if not v or not isinstance(v[0], str):
        return "(" + ",".join(show(x) for x in v) + ")"
    k = v[0]
    if k == "c":
        return repr(v[1])
    if k == "init":
        return show(v[1])
    if k == "v":
        return "%s" % (v[3] if len(v) > 3 else v[2])
    if k == "g":
        return v[1]
    if k == "f":
        return show(v[1]) + "." + v[2]
    if k == ".":
        return show(v[1]) + "." + v[2]
    if k == "i":
        return "%s[%s]" % (show(v[1]), show(v[2]))
    if k == "d":
        return "*" + show(v[1])
    if k == "&":
        return "&" + show(v[1])
    if k == "op":
        if len(v) == 4:
            return "(%s %s %s)" % (show(v[2]), v[1], show(v[3]))
        return "%s(%s)" % (v[1], ", ".join(show(x) for x in v[2:]))
    if k == "call":
        return "%s(%s)" % (v[1], ", ".join(show(x) for x in v[2]))
    if k == "u":
        return show(v[1])
    return k + "(" + ",".join(show(x) for x in v[1:] if not isinstance(x, int)) + ")"


class State:
    __slots__ = ("env", "facts", "tmp", "ep", "ev", "aux")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.tmp = {}
        self.ep = {}
        self.ev = ()
        self.aux = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.tmp = dict(self.tmp)
        s.ep = dict(self.ep)
        s.ev = self.ev
        s.aux = dict(self.aux)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.tmp.items()),
                frozenset(self.ep.items()), self.ev, frozenset(self.aux.items()))


def is_ref(t):
    return t.endswith("&") or "(&)" in t        # reference to an array


def loc_of(p):
    return p[1] if p[0] == "&" else ("d", p)


def addr(l):
    return l[1] if l[0] == "d" else ("&", l)


def rebase(l, old, new):
    if l == old:
        return new
    if l[0] in ("f", "i"):
        return (l[0], rebase(l[1], old, new)) + l[2:]
    return l


def under(loc, root):
    while True:
        if loc == root:
            return True
        if loc[0] in ("f", "i"):
            loc = loc[1]
        else:
            return False


# ---- facts -----------------------------------------------------------------------------------------------------------
def norm_cmp(op, a, b):
    """comparison -> (atom, sense)"""
    if op in ("==", "!="):
        s = op == "=="
        if a == b:
            return True if s else False
        if is_c(a) and is_c(b):
            return (a[1] == b[1]) == s
        if a[0] == "&" and b[0] == "&" and a[1][0] == "g" and b[1][0] == "g":
            return not s        # two objects
        if is_c(a):
            a, b = b, a
        if b == NULL:
            return (("nz", a), not s)
        if not is_c(b) and repr(a) > repr(b):
            a, b = b, a
        return (("eq", a, b), s)
    if is_c(a) and is_c(b):
        try:
            return {"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]
        except TypeError:
            pass
    if op == "<":
        return (("lt", a, b), True)
    if op == ">":
        return (("lt", b, a), True)
    if op == "<=":
        return (("lt", b, a), False)
    return (("lt", a, b), False)


def atoms(v):
    """value used as a condition -> True/False or (atom, sense) or ('and'/'or', [..])"""
    if is_c(v):
        return bool(v[1])
    if v[0] == "op":
        op = v[1]
        if op == "!" and len(v) == 3:
            r = atoms(v[2])
            if isinstance(r, bool):
                return not r
            if r[0] in ("and", "or"):
                return ("or" if r[0] == "and" else "and", [neg(x) for x in r[1]])
            return (r[0], not r[1])
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(v) == 4:
            a, b = v[2], v[3]
            # (cond == false), (cond != true) ... on boolean terms
            if op in ("==", "!=") and is_c(b) and b[1] in (0, 1) and is_boolterm(a):
                r = atoms(a)
                want = (b[1] == 1) == (op == "==")
                return r if want else neg(r)
            if op in ("==", "!=") and is_c(a) and a[1] in (0, 1) and is_boolterm(b):
                r = atoms(b)
                want = (a[1] == 1) == (op == "==")
                return r if want else neg(r)
            return norm_cmp(op, a, b)
        if op == "&&":
            return ("and", [atoms(v[2]), atoms(v[3])])
        if op == "||":
            return ("or", [atoms(v[2]), atoms(v[3])])
    if v[0] == "&":
        return True
    if v[0] in ("new", "obj"):
        return True
    return (("nz", v), True)


def is_boolterm(v):
    return v[0] == "op" and v[1] in ("==", "!=", "<", ">", "<=", ">=", "!", "&&", "||")


def neg(r):
    if isinstance(r, bool):
        return not r
    if r[0] in ("and", "or"):
        return ("or" if r[0] == "and" else "and", [neg(x) for x in r[1]])
    return (r[0], not r[1])


class Zone:
    """difference constraints x - y <= c implied by the facts (integers)"""

    def __init__(self, facts):
        self.e = {}
        for a, s in facts.items():
            if a[0] == "lt":
                if s:
                    self.add(a[1], a[2], -1)
                    if a[1][0] == "u":      # unsigned view of a signed value below something: the value is non-negative
                        self.add(a[1][1], a[2], -1)
                        self.add(NULL, a[1][1], 0)
                else:
                    self.add(a[2], a[1], 0)
                    if a[2][0] == "u" and False:
                        pass
            elif a[0] == "eq" and s:
                self.add(a[1], a[2], 0)
                self.add(a[2], a[1], 0)
            elif a[0] == "nz":
                if not s:
                    self.add(a[1], NULL, 0)
                    self.add(NULL, a[1], 0)
                elif nonneg(a[1]):
                    self.add(NULL, a[1], -1)

    @staticmethod
    def split(t):
        """term -> (base, offset)"""
        k = 0
        while True:
            if t[0] == "c" and isinstance(t[1], (int, float)):
                return NULL, k + t[1]
            if t[0] == "op" and t[1] == "+" and len(t) == 4 and is_c(t[3]) and isinstance(t[3][1], (int, float)):
                k += t[3][1]
                t = t[2]
            elif t[0] == "op" and t[1] == "-" and len(t) == 4 and is_c(t[3]) and isinstance(t[3][1], (int, float)):
                k -= t[3][1]
                t = t[2]
            else:
                return t, k

    def add(self, x, y, c):
        bx, kx = self.split(x)
        by, ky = self.split(y)
        c = c - kx + ky
        k = (bx, by)
        if k not in self.e or self.e[k] > c:
            self.e[k] = c

    def le(self, x, y, c=0):
        """x - y <= c provable"""
        bx, kx = self.split(x)
        by, ky = self.split(y)
        goal = c - kx + ky
        if bx == by:
            return goal >= 0
        # shortest path bx -> by with sum of weights
        dist = {bx: 0}
        e = dict(self.e)
        for t in {n for p in e for n in p} | {bx, by}:
            if nonneg(t):
                k = (NULL, t)
                if k not in e or e[k] > 0:
                    e[k] = 0
        for _ in range(12):
            ch = False
            for (a, b), w in e.items():
                if a in dist and dist[a] + w < dist.get(b, 1e30):
                    dist[b] = dist[a] + w
                    ch = True
            if not ch:
                break
        return dist.get(by, 1e30) <= goal

    def lt(self, x, y):
        return self.le(x, y, -1)


def nonneg(t):
    if t[0] == "c":
        return isinstance(t[1], (int, float)) and t[1] >= 0
    if t[0] == "init" and t[1][0] == "f" and t[1][2] in ("#size",):
        return True
    if t[0] == "." and t[2] == "#size":
        return True
    if t[0] in ("u",):
        return True
    if t[0] == "phi" and len(t) > 4 and t[4]:
        return True
    return False


def query(st, v):
    r = v if isinstance(v, bool) else atoms(v)
    return qatom(st, r)


def qatom(st, r):
    if isinstance(r, bool):
        return r
    if r[0] == "and":
        vs = [qatom(st, x) for x in r[1]]
        if any(x is False for x in vs):
            return False
        return True if all(x is True for x in vs) else None
    if r[0] == "or":
        vs = [qatom(st, x) for x in r[1]]
        if any(x is True for x in vs):
            return True
        return False if all(x is False for x in vs) else None
    a, s = r
    f = st.facts.get(a)
    if f is not None:
        return f == s
    if a[0] == "eq":
        # another constant already known
        if is_c(a[2]):
            for b, bs in st.facts.items():
                if b[0] == "eq" and bs and b[1] == a[1] and is_c(b[2]) and b[2] != a[2]:
                    return (not s)
            if st.facts.get(("nz", a[1])) is False and a[2] != NULL:
                return not s
    if a[0] == "nz" and a[1][0] in ("new", "&", "obj", "lam", "fn"):
        return s
    if a[0] == "nz":
        for b, bs in st.facts.items():
            if b[0] == "eq" and bs and b[1] == a[1] and is_c(b[2]):
                return (b[2][1] != 0) == s
        if a[1][0] == "op" and a[1][1] == "+" :
            pass
    if a[0] in ("lt", "eq", "nz"):
        rel = [b for b in st.facts if b[0] in ("lt", "eq") or (b[0] == "nz")]
        if rel:
            z = Zone(st.facts)
            if a[0] == "lt":
                if z.lt(a[1], a[2]):
                    return s
                if z.le(a[2], a[1]):
                    return not s
            else:
                y = a[2] if a[0] == "eq" else NULL
                x = a[1]
                if z.lt(x, y) or z.lt(y, x):
                    return (not s) if a[0] == "eq" else s
        elif a[0] == "lt":
            z = Zone({})
            if z.lt(a[1], a[2]):
                return s
            if z.le(a[2], a[1]):
                return not s
    return None


def assume(st, v, sense):
    """returns False when infeasible; st is modified"""
    r = v if isinstance(v, (bool,)) else atoms(v)
    if not sense:
        r = neg(r)
    return assume_atom(st, r)


def assume_atom(st, r):
    q = qatom(st, r)
    if q is not None:
        return q
    if r[0] == "and":
        return all(assume_atom(st, x) for x in r[1])
    if r[0] == "or":
        unk = [x for x in r[1] if qatom(st, x) is not False]
        if len(unk) == 1:
            return assume_atom(st, unk[0])
        return True
    a, s = r
    st.facts[a] = s
    # x == c with every other relation is kept as is; a false/true nz of a pseudo boolean stays atomic
    return True


# ---- the engine ------------------------------------------------------------------------------------------------------
class Client:
    """hooks; all optional"""
    max_inline = 6
    objects = False     # follow the members of local objects through constructors, copies and returns
    recursion = 0       # how often a function is analysed in place below itself
    maxd = MAXD
    enum_u = False      # enumerators of the caller may be any value of the underlying type
    once = False        # loops: no round or one round, precisely, instead of a fixed point (for rules about one round)

    def deref(self, eng, st, n, ptr):
        pass

    def index(self, eng, st, n, loc, idx, size):
        pass

    def call(self, eng, st, n, q, recv, args):
        """return None (default handling) or list of (state, value)"""
        return None

    def after_call(self, eng, st, n, q, recv, args, val):
        pass

    def write(self, eng, st, n, loc, val):
        pass

    def inline(self, eng, fn, n):
        return True

    def ret(self, eng, st, fn, val):
        pass

    def throws(self, eng, st, n):
        pass

    def elem(self, eng, st, n):
        pass

    def part(self, eng, st):
        """states that differ here are never merged at function exits"""
        return None


class Engine:
    def __init__(self, prog, client, budget=60000):
        self.p = prog
        self.c = client
        self.budget = budget
        self.steps = 0
        self.nctx = 0
        self.stack = []
        self.fnstack = []
        self.mod = None
        self.never = {}

    # -- summaries
    def never_returns(self, usr, seen=()):
        r = self.never.get(usr)
        if r is not None:
            return r
        if usr in seen or len(seen) > 6:
            return False
        fn = self.p.fn(usr)
        if fn is None or fn.cfg_err:
            return False
        self.never[usr] = False
        reach = {fn.entry}
        work = [fn.entry]
        found = False
        while work:
            b = fn.blocks[work.pop()]
            dead = b.noret
            for e in b.e:
                n = fn.nodes[e] if e >= 0 else None
                if n is None:
                    continue
                if n.k == "throw":
                    dead = True
                if n.k == "call" and n.g("u") and (n.g("nr") or (not n.g("virt") and self.never_returns(n.g("u"), seen + (usr,)))):
                    dead = True
            if dead:
                if any(fn.blocks[h].catch for h in fn.blocks):
                    for h in fn.blocks.values():
                        if h.catch and h.id not in reach:
                            reach.add(h.id)
                            work.append(h.id)
                continue
            for s in b.succ:
                if s is None:
                    continue
                if s == fn.exit:
                    found = True
                if s not in reach:
                    reach.add(s)
                    work.append(s)
        self.never[usr] = not found
        return not found

    # -- locations and values
    def read(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            if v[0] == "agg":       # members written after the whole
                return ("agg", tuple((f, st.env.get(("f", loc, f), x)) for f, x in v[1]))
            return v
        k = loc[0]
        if k == "t":
            return loc[1]
        if k == "f":
            bv = self.base_val(st, loc[1])
            if bv is not None:
                return self.fld(st, bv, loc[2])
            e = st.ep.get(loc[2])
            return ("init", loc) if e is None else ("init", loc, e)
        if k == "i":
            bv = self.base_val(st, loc[1])
            if bv is not None:
                if bv[0] == "agg" and is_c(loc[2]):
                    for f, x in bv[1]:
                        if f == loc[2][1]:
                            return x
                return ("el", bv, loc[2])
            return ("init", loc)
        if k == "g":
            e = st.ep.get(loc[1])
            return ("init", loc) if e is None else ("init", loc, e)
        return ("init", loc)

    def base_val(self, st, loc):
        """explicit value of an aggregate that contains the location, if some ancestor was written"""
        if loc in st.env:
            return st.env[loc]
        if loc[0] == "t":
            return loc[1]
        if loc[0] == "f":
            b = self.base_val(st, loc[1])
            return None if b is None else self.fld(st, b, loc[2])
        if loc[0] == "i":
            b = self.base_val(st, loc[1])
            if b is None:
                return None
            if b[0] == "agg" and is_c(loc[2]):
                for f, x in b[1]:
                    if f == loc[2][1]:
                        return x
            return ("el", b, loc[2])
        return None

    def fld(self, st, bv, f):
        if bv[0] == "agg":
            for n, x in bv[1]:
                if n == f:
                    return x
        if bv[0] == "init" and len(bv) == 2:
            e = st.ep.get(f)
            l = ("f", bv[1], f)
            return ("init", l) if e is None else ("init", l, e)
        e = st.ep.get(f)
        if f == "#size" and bv[0] == "c" and isinstance(bv[1], str):
            return ("c", len(bv[1]))
        return (".", bv, f) if e is None else (".", bv, f, e)

    def write(self, st, loc, val, n=None):
        if n is not None:
            self.c.write(self, st, n, loc, val)
        if depth(val) > MAXDEPTH:
            val = ("top", n.id if n is not None else 0, self.ctx)
        self.kill(st, loc, n)
        st.env[loc] = val

    def kill(self, st, loc, n=None):
        dead = [l for l in st.env if l != loc and under(l, loc)]
        for l in dead:
            del st.env[l]
        # may-alias: same field of another object reached through an opaque pointer, another element of the same array
        if loc[0] == "f":
            root = loc
            while root[0] in ("f", "i"):
                root = root[1]
            if root[0] == "d":
                for l in list(st.env):
                    if l != loc and l[0] == "f" and l[2] == loc[2]:
                        r2 = l
                        while r2[0] in ("f", "i"):
                            r2 = r2[1]
                        if r2[0] == "d" and root[1][0] == r2[1][0] == "new" and self.c.objects and self.c.once:
                            continue
                        if r2[0] == "d" and r2 != root or r2[0] == "g" and self.c.objects and root[1][0] != "new" and not (root[1][0] == "init" and root[1][1][0] == "v"):
                            st.env[l] = ("top", n.id if n is not None else 0, self.ctx, l[2])
        if loc[0] == "i":
            for l in list(st.env):
                if l[0] == "i" and l[1] == loc[1] and l != loc and not (is_c(l[2]) and is_c(loc[2])):
                    st.env[l] = ("top", n.id if n is not None else 0, self.ctx)

    def erase(self, st, recv, it):
        """one element of a vector of known length: those behind it move forward"""
        sz = self.read(st, ("f", recv, "#size"))
        if not (is_c(sz) and it[0] == "it" and it[1] == recv and is_c(it[2]) and 0 <= it[2][1] < sz[1] <= 64):
            return None
        k, n = int(it[2][1]), int(sz[1])
        for j in range(k, n):
            a, b = ("i", recv, ("c", j)), ("i", recv, ("c", j + 1))
            v = self.read(st, b) if j + 1 < n else None
            moved = [(l, x) for l, x in st.env.items() if l != b and under(l, b)] if v is not None else []
            for l in [l for l in st.env if under(l, a)]:
                del st.env[l]
            for l, x in moved:
                st.env[self.moved(l, b, a)] = x
            if v is not None:
                st.env[a] = v
        st.env[("f", recv, "#size")] = ("c", n - 1)
        return ("it", recv, ("c", k))

    def moved(self, l, b, a):
        return a if l == b else (l[0], self.moved(l[1], b, a)) + l[2:]

    def clobber(self, st, loc, site):
        for l in [l for l in st.env if under(l, loc)]:
            del st.env[l]
        st.env[loc] = ("top", site, self.ctx)

    @property
    def ctx(self):
        return self.stack[-1] if self.stack else 0

    # -- expression evaluation
    def varloc(self, fn, d):
        v = fn.vars[d]
        if v.kind in ("global", "smember"):
            return ("g", v.name)
        if v.kind == "static":
            return ("g", fn.q + "::" + v.name)
        if v.outer is not None:
            # captured: the variable of the enclosing function, when that is being analysed
            for u, c in zip(reversed(self.fnstack), reversed(self.stack)):
                if u == v.outer:
                    for w in self.p.fn(u).vars:
                        if w.name == v.name and w.line == v.line and w.outer is None:
                            return ("v", c, w.id, w.name)
                    break
        return ("v", self.ctx, d, v.name)

    def isref(self, fn, d):
        return is_ref(fn.vars[d].t)

    def val(self, st, fn, i, keep=False):
        """value of operand node i"""
        k = (self.ctx, i)
        t = st.tmp.get(k)
        if t is None:
            self.eval1(st, fn, fn.nodes[i], ondemand=True)
            t = st.tmp.get(k)
            if t is None:
                return ("top", i, self.ctx)
        if not keep:
            st.tmp.pop(k, None)
        return t[1] if t[0] == "R" else self.read(st, t[1])

    def lval(self, st, fn, i):
        k = (self.ctx, i)
        t = st.tmp.get(k)
        if t is None:
            self.eval1(st, fn, fn.nodes[i], ondemand=True)
            t = st.tmp.get(k)
            if t is None:
                return ("t", ("top", i, self.ctx))
        st.tmp.pop(k, None)
        return t[1] if t[0] == "L" else ("t", t[1])

    def fold(self, op, a, b):
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                if op == "+":
                    return ("c", x + y)
                if op == "-":
                    return ("c", x - y)
                if op == "*":
                    return ("c", x * y)
                if op == "/" and y and (isinstance(x, float) or isinstance(y, float) or x % y == 0):
                    return ("c", x / y if isinstance(x, float) or isinstance(y, float) else x // y)
                if op == "%" and y and isinstance(x, int) and isinstance(y, int) and x >= 0 and y > 0:
                    return ("c", x % y)
                if op == "<<":
                    return ("c", x << y)
                if op == ">>":
                    return ("c", x >> y)
                if op == "&":
                    return ("c", x & y)
                if op == "|":
                    return ("c", x | y)
                if op == "^":
                    return ("c", x ^ y)
                if op == "==":
                    return ("c", int(x == y))
                if op == "!=":
                    return ("c", int(x != y))
                if op in ("<", ">", "<=", ">="):
                    return ("c", int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
            except TypeError:
                pass
        if op == "+" and is_c(a) and not is_c(b):
            a, b = b, a
        if op == "+" and b == NULL:
            return a
        if op == "-" and b == NULL:
            return a
        if op in ("+", "-") and is_c(b) and a[0] == "op" and a[1] == "+" and len(a) == 4 and is_c(a[3]) and isinstance(b[1], int) and isinstance(a[3][1], int):
            return self.fold("+", a[2], ("c", a[3][1] + (b[1] if op == "+" else -b[1])))
        if op == "-" and is_c(b) and isinstance(b[1], int):
            return self.fold("+", a, ("c", -b[1]))
        return ("op", op, a, b)

    def deref(self, st, n, p):
        if p[0] != "&":
            self.c.deref(self, st, n, p)
        return loc_of(p)

    def eval1(self, st, fn, n, ondemand=False):
        """evaluate one node; its operands were evaluated before. Returns list of states."""
        k = n.k
        key = (self.ctx, n.id)

        def R(v):
            st.tmp[key] = ("R", v)
            return [st]

        def L(l):
            st.tmp[key] = ("L", l)
            return [st]

        if k == "int" or k == "bool":
            return R(("c", int(n.a["v"])))
        if k == "enum":
            return R(("c", int(n.a["v"])))
        if k == "flt":
            try:
                f = float(n.a["v"])
            except ValueError:
                f = n.a["v"]
            return R(("c", int(f) if isinstance(f, float) and f == int(f) and abs(f) < 1e15 else f) if f != float("inf") else ("top", n.id, 0))
        if k == "str":
            return R(("c", n.a["v"]))
        if k == "null" or k == "zero":
            return R(NULL)
        if k == "sizeof":
            return R(("c", int(n.a["v"])) if "v" in n.a else ("top", n.id, 0))
        if k == "this":
            return R(st.env.get(("v", self.ctx, "this"), ("init", ("v", self.ctx, "this"))))
        if k == "ref":
            d = n.a["d"]
            l = self.varloc(fn, d)
            if self.isref(fn, d):
                return L(loc_of(self.read(st, l)))
            return L(l)
        if k == "mem":
            c = fn.nodes[n.c[0]]
            if n.a.get("arrow"):
                p = self.val(st, fn, n.c[0])
                l = self.deref(st, n, p)
            else:
                l = self.lval(st, fn, n.c[0])
            return L(("f", l, n.a["f"]))
        if k == "un":
            op = n.a["op"]
            if op == "*":
                p = self.val(st, fn, n.c[0])
                return L(self.deref(st, n, p))
            if op == "&":
                return R(addr(self.lval(st, fn, n.c[0])))
            if op in ("++", "--", "p++", "p--"):
                l = self.lval(st, fn, n.c[0])
                old = self.read(st, l)
                new = self.fold("+", old, ("c", 1 if "+" in op else -1))
                self.write(st, l, new, n)
                if op[0] == "p":
                    return R(old)
                return L(l)
            v = self.val(st, fn, n.c[0])
            if op == "!":
                q = query(st, v)
                if q is not None:
                    return R(("c", int(not q)))
                if v[0] == "op" and v[1] == "!" :
                    return R(v[2])
                return R(("op", "!", v))
            if op == "-" and is_c(v) and isinstance(v[1], (int, float)):
                return R(("c", -v[1]))
            if op == "+":
                return R(v)
            if op == "~" and is_c(v) and isinstance(v[1], int):
                return R(("c", ~v[1]))
            return R(("op", op, v))
        if k == "bin":
            op = n.a["op"]
            if op in ("&&", "||"):
                rk = (self.ctx, n.c[1])
                if rk in st.tmp:
                    st.tmp.pop((self.ctx, n.c[0]), None)
                    return R(self.val(st, fn, n.c[1]))
                a = self.val(st, fn, n.c[0])
                q = query(st, a)
                if q is None:
                    # not control flow (constant context): keep as a term
                    b = self.val(st, fn, n.c[1])
                    return R(("op", op, a, b))
                if op == "&&":
                    return R(("c", 0) if not q else self.val(st, fn, n.c[1]))
                return R(("c", 1) if q else self.val(st, fn, n.c[1]))
            if op == ",":
                st.tmp.pop((self.ctx, n.c[0]), None)
                t = st.tmp.pop((self.ctx, n.c[1]), None)
                if t:
                    st.tmp[key] = t
                    return [st]
                return R(("top", n.id, self.ctx))
            a = self.val(st, fn, n.c[0])
            b = self.val(st, fn, n.c[1])
            return R(self.fold(op, a, b))
        if k == "asg":
            op = n.a["op"]
            v = self.val(st, fn, n.c[1])
            l = self.lval(st, fn, n.c[0])
            if op != "=":
                v = self.fold(op[:-1], self.read(st, l), v)
            self.write(st, l, v, n)
            return L(l)
        if k == "cond":
            st.tmp.pop((self.ctx, n.c[0]), None)
            for i in (n.c[1], n.c[2]):
                t = st.tmp.pop((self.ctx, i), None)
                if t is not None:
                    st.tmp[key] = t
                    return [st]
            q = None
            a = self.val(st, fn, n.c[0])
            q = query(st, a)
            if q is None:
                b, c = self.val(st, fn, n.c[1]), self.val(st, fn, n.c[2])
                return R(b if b == c else ("op", "?:", a, b, c))
            return R(self.val(st, fn, n.c[1] if q else n.c[2]))
        if k == "cast":
            ck = n.a.get("ck")
            t = st.tmp.get((self.ctx, n.c[0]))
            if ck == "dynamic":
                v = self.val(st, fn, n.c[0])
                return R(NULL if v == NULL else ("op", "dyn:" + n.a["to"], v))
            if n.a.get("lv"):
                return L(self.lval(st, fn, n.c[0]))
            v = self.val(st, fn, n.c[0])
            return R(self.cast(v, fn.nodes[n.c[0]].t, n.a["to"]))
        if k == "sub":
            i = self.val(st, fn, n.c[1])
            bn = fn.nodes[n.c[0]]
            if ("sz" in n.a or bn.t.endswith("]")) and "(*" not in bn.t:
                l = self.lval(st, fn, n.c[0])
                self.c.index(self, st, n, l, i, ("c", n.a["sz"]) if "sz" in n.a else None)
            else:
                p = self.val(st, fn, n.c[0])
                l = self.deref(st, n, p)
                self.c.index(self, st, n, l, i, None)
            return L(("i", l, i))
        if k == "new":
            v = None
            for i in n.c:
                v = self.val(st, fn, i)
            o = ("new", n.a.get("of", ""), self.ctx, n.id)
            if self.c.objects and self.c.once:
                # each evaluation gives another object
                i = st.aux.get(("news", self.ctx, n.id), 0)
                st.aux[("news", self.ctx, n.id)] = i + 1
                if i:
                    o = ("new", n.a.get("of", ""), (self.ctx, i), n.id)
            if self.c.objects and v is not None and v[0] == "agg":
                self.write(st, ("d", o), v)
            return R(o)
        if k == "delete":
            p = self.val(st, fn, n.c[0])
            self.c.elem(self, st, n)
            self.on_delete(st, n, p)
            return R(NULL)
        if k == "ilist":
            fs = n.a.get("fields")
            vals = [self.val(st, fn, i) if i >= 0 else NULL for i in n.c]
            if fs:
                return R(("agg", tuple(zip(fs, vals))))
            if len(vals) == 1 and not n.t.endswith("]") and "vector" not in n.t and "initializer_list" not in n.t:
                return R(vals[0])
            return R(("agg", tuple(enumerate(vals))))
        if k == "lambda":
            return R(("lam", n.a.get("u", "")))
        if k == "fn":
            return R(("fn", n.a.get("q", "")))
        if k == "throw":
            for i in n.c:
                self.val(st, fn, i)
            self.c.throws(self, st, n)
            return []
        if k == "decl":
            for d, i in n.a["ds"]:
                l = self.varloc(fn, d)
                if i < 0:
                    self.kill(st, l)
                    st.env[l] = ("uninit", n.id, self.ctx, fn.vars[d].name)
                    continue
                if fn.vars[d].kind == "static":
                    self.val(st, fn, i)
                    continue
                if self.isref(fn, d):
                    t = st.tmp.get((self.ctx, i))
                    if t is None:
                        self.eval1(st, fn, fn.nodes[i], True)
                        t = st.tmp.get((self.ctx, i), ("R", ("top", i, self.ctx)))
                    st.tmp.pop((self.ctx, i), None)
                    if t[0] == "L":
                        st.env[l] = addr(t[1])
                    else:
                        st.env[l] = ("&", ("t", t[1]))
                else:
                    v = self.val(st, fn, i)
                    self.write(st, l, v, n)
            return [st]
        if k == "ret":
            if n.c:
                if fn.ret.endswith("&"):
                    t = st.tmp.pop((self.ctx, n.c[0]), None)
                    if t is None:
                        self.eval1(st, fn, fn.nodes[n.c[0]], True)
                        t = st.tmp.pop((self.ctx, n.c[0]), ("R", ("top", n.id, self.ctx)))
                    v = addr(t[1]) if t[0] == "L" else ("&", ("t", t[1]))
                else:
                    v = self.val(st, fn, n.c[0])
            else:
                v = None
            st.tmp[("ret", self.ctx)] = v
            self.c.ret(self, st, fn, v)
            return [st]
        if k == "cinit":
            th = st.env.get(("v", self.ctx, "this"), ("init", ("v", self.ctx, "this")))
            v = self.val(st, fn, n.c[0]) if n.c else None
            if "f" in n.a and v is not None:
                self.write(st, ("f", loc_of(th), n.a["f"]), v, n)
            return [st]
        if k == "dtor":
            self.c.elem(self, st, n)
            return [st]
        if k in ("call", "ctor"):
            return self.do_call(st, fn, n)
        if k == "typeid":
            for i in n.c:
                st.tmp.pop((self.ctx, i), None)
            return R(("top", n.id, self.ctx))
        if k == "stmt":
            return [st]
        # arrcopy, other
        vs = [self.val(st, fn, i) for i in n.c if i >= 0]
        if k == "arrcopy" and vs:
            return R(vs[0])
        return R(("top", n.id, self.ctx))

    def on_delete(self, st, n, p):
        pass

    SIGNED = re.compile(r"^(const )?(int|long|short|char|signed char|long long)$")
    UNSIGNED = re.compile(r"^(const )?unsigned ")
    FLT = re.compile(r"^(const )?(double|float|long double)$")

    def cast(self, v, frm, to):
        if self.UNSIGNED.match(to) and (self.SIGNED.match(frm) or self.c.enum_u and frm in self.p.enums):
            if is_c(v) and isinstance(v[1], int):
                if v[1] >= 0:
                    return v
                return ("c", v[1] + (1 << 32 if "int" in to and "long" not in to else 1 << 64))
            if v[0] == "u" or nonneg(v):
                return v
            return ("u", v)
        if self.FLT.match(frm) and not self.FLT.match(to) and to != "bool":
            if is_c(v) and isinstance(v[1], (int, float)):
                return ("c", int(v[1]))
            return ("op", "trunc", v)
        return v

    PTR_OPS = ("unique_ptr", "shared_ptr", "__shared_ptr", "ref_ptr", "__shared_ptr_access")

    def do_call(self, st, fn, n):
        key = (self.ctx, n.id)
        q = n.a.get("q") or ""
        lv = n.a.get("lv")
        recv = None
        kids = list(n.c)
        if n.a.get("ind"):
            callee = self.val(st, fn, kids[0])
            args_i = kids[1:]
            args = [self.arg(st, fn, i) for i in args_i]
            r = self.c.call(self, st, n, "<indirect>", callee, args)
            if r is None:
                if callee[0] == "lam" and callee[1] in self.p.src:
                    r = self.inline(st, n, self.p.fn(callee[1]), None, args)
                if r is None:
                    self.c.deref(self, st, n, callee)
                    r = [(st, ("call", "<indirect>", (callee,), n.id, self.ctx))]
            return self.finish(r, key, lv)
        if n.a.get("recv"):
            ri = kids[0]
            if n.a.get("arrow"):
                p = self.val(st, fn, ri)
                recv = self.deref(st, n, p)
            else:
                rn = fn.nodes[ri]
                t = st.tmp.get((self.ctx, ri))
                if t is None:
                    self.eval1(st, fn, rn, True)
                    t = st.tmp.get((self.ctx, ri), ("R", ("top", ri, self.ctx)))
                st.tmp.pop((self.ctx, ri), None)
                # implicit `this` member call: receiver node is the `this` pointer itself
                if rn.k == "this":
                    recv = loc_of(t[1])
                else:
                    recv = t[1] if t[0] == "L" else ("t", t[1])
            kids = kids[1:]
        args = [self.arg(st, fn, i) for i in kids]
        r = self.c.call(self, st, n, q, recv, args)
        if r is None:
            r = self.std_model(st, fn, n, q, recv, args)
        if r is None and n.k == "ctor" and self.c.objects:
            r = self.construct(st, n, q, args)
        if r is None and n.k == "ctor":
            r = self.ctor_model(st, fn, n, q, args)
        if r is None:
            if n.a.get("nr"):
                self.c.throws(self, st, n)
                return []
            u = n.a.get("u")
            tg = None
            if u in self.p.src:
                if n.a.get("virt"):
                    tg = self.virtual_target(st, n, recv)
                else:
                    tg = self.p.fn(u)
                if tg is not None and not n.a.get("virt") and self.never_returns(u):
                    self.c.throws(self, st, n)
                    return []
            if tg is not None and len(self.stack) <= self.c.max_inline and self.fnstack.count(tg.usr) <= self.c.recursion and not tg.cfg_err \
                    and self.c.inline(self, tg, n):
                r = self.inline(st, n, tg, recv, args)
        if r is None:
            r = self.opaque(st, fn, n, q, recv, args)
        for s, v in r:
            self.c.after_call(self, s, n, q, recv, args, v)
        return self.finish(r, key, lv)

    def virtual_target(self, st, n, recv):
        u = n.a["u"]
        ov = self.p.overriders(u)
        if not ov:
            return self.p.fn(u)
        return None

    def finish(self, r, key, lv):
        out = []
        for s, v in r:
            if v is None:
                v = NULL
            if lv:
                s.tmp[key] = ("L", loc_of(v))
            else:
                s.tmp[key] = ("R", v)
            out.append(s)
        return out

    def arg(self, st, fn, i):
        """('L', loc) or ('R', value)"""
        t = st.tmp.get((self.ctx, i))
        if t is None:
            self.eval1(st, fn, fn.nodes[i], True)
            t = st.tmp.get((self.ctx, i), ("R", ("top", i, self.ctx)))
        st.tmp.pop((self.ctx, i), None)
        return t

    def aval(self, st, a):
        return a[1] if a[0] == "R" else self.read(st, a[1])

    # -- models of the standard library
    def std_model(self, st, fn, n, q, recv, args):
        last = q.rsplit("::", 1)[-1]
        op = n.a.get("op")
        isstd = q.startswith(("std::", "osg::ref_ptr", "__gnu_cxx::"))
        if isstd and recv is not None:
            cls = n.a.get("cls", "")
            if any(cls.endswith(x) for x in self.PTR_OPS):
                pl = ("f", recv, "#ptr")
                if last in ("operator->", "get"):
                    return [(st, self.read(st, pl))]
                if last == "operator bool" or last == "valid":
                    return [(st, self.read(st, pl))]
                if last == "operator*":
                    p = self.read(st, pl)
                    return [(st, ("&", self.deref(st, n, p)))]
                if last == "operator=" and args:
                    v = self.aval(st, args[0])
                    self.write(st, recv, v, n)
                    return [(st, addr(recv))]
                if last == "reset":
                    self.clobber(st, recv, n.id)
                    self.write(st, pl, self.aval(st, args[0]) if args else NULL, n)
                    return [(st, NULL)]
            r = self.iter_model(st, n, cls, last, op, recv, args)
            if r is not None:
                return r
            if last in ("size", "length") and not args:
                return [(st, self.read(st, ("f", recv, "#size")))]
            if last == "empty" and not args:
                v = ("op", "==", self.read(st, ("f", recv, "#size")), NULL)
                qv = query(st, v)
                return [(st, v if qv is None else ("c", int(qv)))]
            if last in ("operator[]", "at") and args and ("vector" in cls or "array" in cls or "deque" in cls or "basic_string" in cls):
                i = self.aval(st, args[0])
                self.c.index(self, st, n, recv, i, self.read(st, ("f", recv, "#size")))
                return [(st, ("&", ("i", recv, i)))]
            if last in ("back", "front") and not args:
                sz = self.read(st, ("f", recv, "#size"))
                self.c.index(self, st, n, recv, NULL, sz)
                i = NULL if last == "front" else self.fold("-", sz, ("c", 1))
                return [(st, ("&", ("i", recv, i)))]
            if last == "clear":
                self.clobber(st, recv, n.id)
                st.env[("f", recv, "#size")] = NULL
                return [(st, NULL)]
            if last == "erase" and len(args) == 1 and ("vector" in cls or "deque" in cls):
                r = self.erase(st, recv, self.aval(st, args[0]))
                if r is not None:
                    return [(st, r)]
            if last in ("push_back", "emplace_back"):
                sz = self.read(st, ("f", recv, "#size"))
                v = self.aval(st, args[0]) if args else ("top", n.id, self.ctx)
                if is_c(sz) and len(args) == 1 and v[0] in ("&", "c", "new"):
                    st.env[("i", recv, sz)] = v
                else:
                    self.clobber(st, recv, n.id)
                st.env[("f", recv, "#size")] = self.fold("+", sz, ("c", 1))
                self.c.write(self, st, n, ("i", recv, sz), v)
                return [(st, NULL)]
            if last in ("c_str", "data") and not args:
                return [(st, ("op", "c_str", self.read(st, recv)))]
            if last == "operator=" and args:
                self.write(st, recv, self.aval(st, args[0]), n)
                return [(st, addr(recv))]
            if last.startswith("operator ") and not args:      # conversion
                return [(st, self.read(st, recv))]
        if op in ("==", "!=", "<", ">", "<=", ">=") and isstd or (op in ("==", "!=") and recv is None and len(args) == 2 and isstd):
            ops = ([("L", recv)] if recv is not None else []) + args
            if len(ops) == 2:
                a, b = self.aval(st, ops[0]), self.aval(st, ops[1])
                if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
                    a, b = a[2], b[2]
                    v = self.fold(op, a, b)
                    qv = query(st, v)
                    return [(st, v if qv is None else ("c", int(qv)))]
                return [(st, self.fold(op, a, b))]
        if last == "operator=" and recv is not None and len(args) == 1 and not isstd and n.a.get("u") not in self.p.src and (q.rsplit("::", 1)[0] in self.p.recs or n.g("cls") in self.p.recs):
            # assignment the compiler supplies: member by member
            a = args[0]
            sub = [(l, v) for l, v in st.env.items() if a[0] == "L" and l != a[1] and under(l, a[1])]
            self.write(st, recv, self.aval(st, a), n)
            for l, v in sub:
                st.env[rebase(l, a[1], recv)] = v
            return [(st, addr(recv))]
        if q in ("std::begin", "std::cbegin", "std::end", "std::cend") and len(args) == 1 and args[0][0] == "L":
            return [(st, ("it", args[0][1], NULL if q.endswith("begin") else self.read(st, ("f", args[0][1], "#size"))))]
        if q in ("std::prev", "std::next") and args:
            v = self.aval(st, args[0])
            if v[0] == "it":
                k = self.aval(st, args[1]) if len(args) > 1 else ("c", 1)
                return [(st, ("it", v[1], self.fold("-" if last == "prev" else "+", v[2], k)))]
        if q in ("std::upper_bound", "std::lower_bound") and self.c.once and len(args) in (3, 4):
            r = self.bound_model(st, n, last == "upper_bound", args)
            if r is not None:
                return r
        if q in ALGOS and self.c.once and len(args) >= 3:
            r = self.algo_model(st, n, q[5:], args)
            if r is not None:
                return r
        if q in ("std::move", "std::forward", "std::as_const") and args:
            a = args[0]
            return [(st, addr(a[1]) if a[0] == "L" else ("&", ("t", a[1])))]
        if q in ("strcmp", "std::strcmp") and len(args) == 2:
            a, b = self.aval(st, args[0]), self.aval(st, args[1])
            for x in (a, b):
                if x[0] == "op" and x[1] == "c_str":
                    pass
            a = a[2] if a[0] == "op" and a[1] == "c_str" else a
            b = b[2] if b[0] == "op" and b[1] == "c_str" else b
            return [(st, self.fold("!=", a, b))]
        if q in ("std::max", "std::min", "fabs", "abs", "std::abs", "std::fabs", "sqrt", "cos", "sin", "fmod", "pow", "isnan", "std::isnan",
                 "std::to_string", "floor", "ceil", "round", "tan", "atan2", "acos", "asin", "hypot", "std::isinf", "std::stoi", "std::stod",
                 "atan", "std::pow", "std::sqrt", "std::sin", "std::cos", "std::tan", "std::atan", "std::atan2", "std::fmod", "std::floor", "std::ceil", "std::hypot",
                 "std::signbit", "signbit", "std::acos", "std::asin", "std::round"):
            vs = tuple(self.aval(st, a) for a in args)
            if all(is_c(v) and isinstance(v[1], (int, float)) for v in vs) and last in ("abs", "fabs", "min", "max"):
                xs = [v[1] for v in vs]
                r = ("c", abs(xs[0]) if last in ("abs", "fabs") else min(xs) if last == "min" else max(xs))
            elif all(is_c(v) and isinstance(v[1], (int, float)) for v in vs) and last in ("fmod", "floor", "ceil") and not (last == "fmod" and vs[1][1] == 0):
                r = ("c", float(getattr(math, last)(*[v[1] for v in vs])))
            elif last in ("isnan", "isinf") and is_c(vs[0]) and isinstance(vs[0][1], (int, float)):
                r = ("c", int(getattr(math, last)(vs[0][1])))
            elif last == "signbit" and is_c(vs[0]) and isinstance(vs[0][1], (int, float)):
                r = ("c", int(math.copysign(1.0, vs[0][1]) < 0))
            elif all(is_c(v) and isinstance(v[1], (int, float)) for v in vs) and last in ("sqrt", "pow", "sin", "cos", "tan", "atan", "atan2", "hypot", "acos", "asin"):
                try:
                    r = ("c", float(getattr(math, last)(*[v[1] for v in vs])))
                except (ValueError, OverflowError, ZeroDivisionError):
                    r = ("call", q, vs)
            else:
                r = ("call", q, vs)
            return [(st, ("&", ("t", r)) if q in ("std::max", "std::min") and n.a.get("lv") else r)]
        return None

    def iter_model(self, st, n, cls, last, op, recv, args):
        """iterators as (container, position), so that all ways to walk a container look alike"""
        if "iterator" in cls:
            v = self.read(st, recv)
            if v[0] != "it":
                return None
            if last in ("operator*", "operator->"):
                return [(st, ("&", ("i", v[1], v[2])))]
            if last in ("operator++", "operator--"):
                self.write(st, recv, ("it", v[1], self.fold("+" if last == "operator++" else "-", v[2], ("c", 1))), n)
                return [(st, addr(recv) if not args else v)]
            if last in ("operator+", "operator-") and len(args) == 1:
                a = self.aval(st, args[0])
                if a[0] == "it":
                    return [(st, self.fold("-", v[2], a[2]))] if a[1] == v[1] and last == "operator-" else None
                return [(st, ("it", v[1], self.fold(last[-1], v[2], a)))]
            return None
        if last in ("upper_bound", "lower_bound", "find") and self.c.once and len(args) == 1 and "map" in cls:
            sz, key, res = self.read(st, ("f", recv, "#size")), self.aval(st, args[0]), []
            if is_c(sz):
                todo = [(st, 0)]
                while todo:
                    s, i = todo.pop()
                    if i >= sz[1]:
                        res.append((s, ("it", recv, sz)))
                        continue
                    x = self.read(s, ("f", ("i", recv, ("c", i)), "first"))
                    v = self.fold("==", key, x) if last == "find" else self.fold("<", key, x) if last == "upper_bound" else self.fold("<=", key, x)
                    for yes in (True, False):
                        s2 = s.copy()
                        if assume(s2, v, yes):
                            if yes:
                                res.append((s2, ("it", recv, ("c", i))))
                            else:
                                todo.append((s2, i + 1))
                return res
        if last in ("begin", "cbegin", "end", "cend") and not args and any(x in cls for x in CONTAINERS):
            return [(st, ("it", recv, NULL if last.endswith("begin") else self.read(st, ("f", recv, "#size"))))]
        return None

    def bound_model(self, st, n, upper, args):
        """first element behind (upper) or not before (lower) a value, in a range of known size"""
        b, e = self.aval(st, args[0]), self.aval(st, args[1])
        f = self.aval(st, args[3]) if len(args) > 3 else None
        if b[0] != "it" or e[0] != "it" or b[1] != e[1] or not is_c(b[2]) or not is_c(e[2]):
            return None
        if f is not None and (f[0] != "lam" or f[1] not in self.p.src):
            return None
        key = self.aval(st, args[2])
        todo, res = [(st, b[2][1])], []
        while todo:
            s, i = todo.pop()
            if i >= e[2][1]:
                res.append((s, e))
                continue
            el = ("L", ("i", b[1], ("c", i)))
            if f is None:
                x = self.read(s, el[1])
                rs = [(s, self.fold("<", key, x) if upper else self.fold("<", x, key))]
            else:
                rs = self.inline(s, n, self.p.fn(f[1]), None, [args[2], el] if upper else [el, args[2]]) or []
            for s1, v in rs:
                for yes in (True, False):
                    s2 = s1.copy()
                    if not assume(s2, v, yes):
                        continue
                    if yes == upper:
                        res.append((s2, ("it", b[1], ("c", i))))
                    else:
                        todo.append((s2, i + 1))
        return res

    def algo_model(self, st, n, name, args):
        """algorithms that apply a function object to a range, at most one element looked at"""
        b, e, f = (self.aval(st, a) for a in args[:3])
        if b[0] != "it" or e[0] != "it" or b[1] != e[1] or f[0] != "lam" or f[1] not in self.p.src:
            return None
        res = []
        none = {"find_if": e, "find_if_not": e, "any_of": NULL, "all_of": ("c", 1), "none_of": ("c", 1), "for_each": NULL, "count_if": NULL}[name]
        some = {"find_if": b, "find_if_not": b, "any_of": ("c", 1), "all_of": NULL, "none_of": NULL, "for_each": NULL, "count_if": ("c", 1)}[name]
        todo = [(st, b[2], NULL, 0)]
        while todo:
            s, i, cnt, k = todo.pop()
            s0 = s.copy()
            if assume(s0, ("op", "==", i, e[2]), True):
                res.append((s0, cnt if name == "count_if" else none))
            if not assume(s, ("op", "==", i, e[2]), False):
                continue
            here = ("it", b[1], i) if name in ("find_if", "find_if_not") else some
            nxt = self.fold("+", i, ("c", 1))
            more = is_c(nxt) and is_c(e[2]) and k < 6
            for s1, v in self.inline(s, n, self.p.fn(f[1]), None, [("L", ("i", b[1], i))]) or []:
                hit = name not in ("all_of", "find_if_not")
                for yes in (True, False) if name != "for_each" else (False,):
                    s2 = s1.copy()
                    if name != "for_each" and not assume(s2, v, hit if yes else not hit):
                        continue
                    c2 = self.fold("+", cnt, ("c", 1)) if yes else cnt
                    if yes and name != "count_if":
                        res.append((s2, here))
                    elif more:
                        todo.append((s2, nxt, c2, k + 1))
                    else:
                        res.append((s2, c2 if name == "count_if" else none))
        return res

    def fields_of(self, q):
        out, work = [], [q]
        while work:
            rec = self.p.recs.get(work.pop())
            if rec is None:
                return None
            out += [f["n"] for f in rec.fields]
            work += list(rec.bases)
        return out

    def snapshot(self, st, l, q):
        """the object as a value, with the members written so far"""
        fs = self.fields_of(q)
        if fs is None or not any(x != l and under(x, l) for x in st.env):
            return None
        return ("agg", tuple((f, self.read(st, ("f", l, f))) for f in fs))

    def construct(self, st, n, q, args):
        cls = q.rsplit("::", 1)[0]
        if (n.a.get("copy") or n.a.get("move")) and len(args) == 1:
            v = self.snapshot(st, args[0][1], cls) if args[0][0] == "L" else None
            return None if v is None else [(st, v)]
        u = n.a.get("u")
        tg = self.p.fn(u) if u in self.p.src else None
        if tg is None or q.startswith("std::") or tg.cfg_err or len(self.stack) > self.c.max_inline or tg.usr in self.fnstack or not self.c.inline(self, tg, n):
            return None
        obj = ("t", ("obj", tg.q, n.id, self.ctx))
        out = []
        for s, _ in self.inline(st, n, tg, None, args):
            v = self.snapshot(s, obj, cls)
            for l in [l for l in s.env if under(l, obj)]:
                del s.env[l]
            out.append((s, obj[1] if v is None else v))
        return out

    def ctor_model(self, st, fn, n, q, args):
        if (n.a.get("copy") or n.a.get("move")) and len(args) == 1:
            return [(st, self.aval(st, args[0]))]
        if "iterator" in q and args:
            v = self.aval(st, args[0])
            if v[0] == "it":
                return [(st, v)]
        if q.startswith("std::") and "basic_string" in q and args:
            return [(st, self.aval(st, args[0]))]
        if q.startswith("std::") and ("vector" in q) and not args:
            return [(st, ("agg", (("#size", NULL),)))]
        if q.startswith("std::") and any(x in q for x in self.PTR_OPS):
            v = self.aval(st, args[0]) if args else NULL
            return [(st, ("agg", (("#ptr", v),)))]
        if q.startswith("std::") and "basic_string" in q:
            return [(st, ("c", ""))]
        return [(st, ("obj", q, n.id, self.ctx))]

    # -- opaque calls
    def opaque(self, st, fn, n, q, recv, args):
        pure = n.a.get("const") or self.is_pure(n)
        pm = n.a.get("pm", "")
        vals = tuple(self.aval(st, a) for a in args)
        if pure and not any(c in "rp" for c in pm):
            if recv is not None:
                v = self.read(st, ("f", recv, (q.rsplit("::", 1)[-1] + "(" + ",".join(show(x) for x in vals) + ")")))
                if vals:
                    v = ("call", q, (self.read(st, ("f", recv, q.rsplit("::", 1)[-1] + "()")),) + vals)
                return [(st, v)]
            return [(st, ("call", q, vals))]
        v = ("call", q, vals, n.id, self.ctx) if recv is None else ("call", q, vals, n.id, self.ctx, recv)
        self.scrub(st, v)
        # effects
        if recv is not None and not n.a.get("const") and not n.a.get("static"):
            self.clobber_by_mod(st, n, recv)
        for i, a in enumerate(args):
            c = pm[i] if i < len(pm) else "v"
            if q.startswith("fmt::"):
                break
            if c == "r" and a[0] == "L":
                self.clobber(st, a[1], n.id)
            elif c == "p" and a[0] in ("R", "L"):
                p = self.aval(st, a)
                if p[0] == "&":
                    self.clobber(st, p[1], n.id)
        self.apply_mod(st, n)
        return [(st, v)]

    def is_pure(self, n):
        """a lookup with a body that writes nothing (log output aside): two calls with equal arguments agree"""
        u = n.a.get("u")
        if not getattr(self.c, "infer_pure", False) or not u or u not in self.p.src or n.a.get("virt"):
            return False
        memo = self.p.__dict__.setdefault("_pure", {})
        if u not in memo:
            import effects
            memo[u] = not effects.Effects(self.p, [u], effects.logging).of(u)
        return memo[u]

    def clobber_by_mod(self, st, n, recv):
        u = n.a.get("u")
        if u in self.p.src:
            return                 # body known: apply_mod handles it by field
        if recv[0] == "t":
            return
        self.clobber(st, recv, n.id)

    def apply_mod(self, st, n):
        if self.mod is None:
            return
        m = set()
        for u in self.p.targets(n):
            m |= self.mod.get(u, frozenset())
        for f in m:
            self.mod_field(st, f, n.id)

    def mod_field(self, st, f, site):
        name = f.rsplit("::", 1)[-1] if not f.startswith("g:") else f[2:]
        for l in [l for l in st.env if (l[0] == "f" and l[2] == name) or (l[0] == "g" and l[1] == name)]:
            self.clobber(st, l, site)
        st.ep[name] = (site, self.ctx)

    def scrub(self, st, v):
        for l, x in list(st.env.items()):
            if mentions(x, v):
                st.env[l] = ("stale", l, v[3])
        for a in [a for a in st.facts if mentions(a, v)]:
            del st.facts[a]

    # -- inlining
    @staticmethod
    def is_array(st, l, v):
        return v[0] == "agg" and all(f == i for i, (f, _) in enumerate(v[1])) or any(x[0] == "i" and (x[1] == l or x[1][0] == "i" and x[1][1] == l) for x in st.env)

    def inline(self, st, n, fn, recv, args):
        self.nctx += 1
        # contexts are named by call path so that terms stay stable across fixpoint iterations
        c = (self.ctx, n.id) if len(repr(self.ctx)) < 200 else self.nctx
        st = st.copy()
        pre = [l for l in st.env if l[0] == "v" and l[1] == c]
        for l in pre:
            del st.env[l]
        for i, p in enumerate(fn.params):
            v = fn.vars[p]
            l = ("v", c, p, v.name)
            if i < len(args):
                a = args[i]
                if is_ref(v.t):
                    st.env[l] = addr(a[1]) if a[0] == "L" else ("&", ("t", a[1]))
                else:
                    st.env[l] = self.aval(st, a)
                    if a[0] == "L" and v.t.endswith(("*", ")[3]")) and self.is_array(st, a[1], st.env[l]):
                        st.env[l] = addr(a[1])      # an array decays to a pointer to itself
        if recv is not None:
            st.env[("v", c, "this")] = addr(recv)
        elif n.k == "ctor":
            st.env[("v", c, "this")] = ("&", ("t", ("obj", fn.q, n.id, self.ctx)))
        self.stack.append(c)
        self.fnstack.append(fn.usr)
        try:
            outs = self.run_body(fn, st)
        finally:
            self.stack.pop()
            self.fnstack.pop()
        res = []
        if len(outs) > MAXD:
            outs = self.merge(outs, c, ("ret", n.id))
        for o in outs:
            v = o.tmp.pop(("ret", c), None)
            for k in [k for k in o.tmp if k[0] == c]:
                del o.tmp[k]
            for l in [l for l in o.env if l[0] == "v" and l[1] == c]:
                if v is not None and mentions(v, l):
                    continue
                del o.env[l]
            res.append((o, v))
        return res

    # -- fixpoint
    def loop_heads(self, fn):
        h = getattr(fn, "_heads", None)
        if h is not None:
            return h
        heads = set()
        fn._back = set()
        color = {}
        st = [(fn.entry, iter(fn.blocks[fn.entry].succ))]
        color[fn.entry] = 1
        while st:
            b, it = st[-1]
            nx = next(it, "end")
            if nx == "end":
                color[b] = 2
                st.pop()
                continue
            if nx is None:
                continue
            if color.get(nx) == 1:
                heads.add(nx)
                fn._back.add((b, nx))
            elif nx not in color:
                color[nx] = 1
                st.append((nx, iter(fn.blocks[nx].succ)))
        fn._heads = heads
        return heads

    def loop_exits(self, fn, head):
        """successors of a loop head that leave the loop"""
        c = fn.__dict__.setdefault("_exits", {})
        if head not in c:
            pred = {}
            for b in fn.blocks.values():
                for t in b.succ:
                    if t is not None:
                        pred.setdefault(t, []).append(b.id)
            body = {head}
            work = [b for b, h in fn._back if h == head]
            while work:
                b = work.pop()
                if b not in body:
                    body.add(b)
                    work += pred.get(b, [])
            c[head] = {t for t in fn.blocks[head].succ if t is not None and t not in body}
        return c[head]

    def join(self, a, b, tag, loop=False):
        r = State()
        r.ev = a.ev if a.ev == b.ev else self.join_ev(a.ev, b.ev)
        for k in set(a.aux) & set(b.aux):
            if a.aux[k] == b.aux[k]:
                r.aux[k] = a.aux[k]
        for f in set(a.ep) | set(b.ep):
            if a.ep.get(f) == b.ep.get(f):
                r.ep[f] = a.ep[f]
            else:
                r.ep[f] = ("phi", tag)
        changed = set()
        retfacts = {}
        for l in set(a.env) | set(b.env):
            va, vb = self.read(a, l), self.read(b, l)
            if va == vb:
                r.env[l] = va
            else:
                ph = ("phi", tag, self.ctx, l)
                r.env[l] = ph
                changed.add(ph)
        for k in set(a.tmp) & set(b.tmp):
            if a.tmp[k] == b.tmp[k]:
                r.tmp[k] = a.tmp[k]
            elif k[0] == "ret":
                r.tmp[k] = ph = ("phi", tag, self.ctx, k)
                va, vb = a.tmp[k], b.tmp[k]
                for f in [f for f in r.facts if mentions(f, ph)]:
                    del r.facts[f]
                for f, s in list(a.facts.items()) + ([(("eq", va, va), True)] if is_c(va) else []):
                    if f[0] == "eq" and f[1] == va and is_c(f[2]) and qatom(b, norm_cmp("==", vb, f[2])) is s:
                        retfacts[("eq", ph, f[2])] = s
            elif isinstance(a.tmp[k], tuple) and a.tmp[k][0] == "R":
                r.tmp[k] = ("R", ("phi", tag, self.ctx, k))
        # facts: keep common ones, dropping those about phis redefined here
        for f, s in a.facts.items():
            if b.facts.get(f) == s:
                if changed and mentions_pred(f, lambda t: t in changed):
                    continue
                r.facts[f] = s
            elif f[0] in ("nz",) and qatom(b, (f, s)) is True:
                r.facts[f] = s
        for f, s in b.facts.items():
            if f not in r.facts and f[0] in ("nz",) and qatom(a, (f, s)) is True:
                if changed and mentions_pred(f, lambda t: t in changed):
                    continue
                r.facts[f] = s
        r.facts.update(retfacts)
        # lower bounds of merged integers
        for ph in changed:
            l = ph[3]
            va, vb = self.read(a, l), self.read(b, l)
            fa = ("nz", ph)
            # merged value is non-null when it is on both sides
            qa, qb = query(a, va), query(b, vb)
            if qa is not None and qa == qb:
                r.facts[fa] = qa
            for lo in (0, 1):
                c = ("c", lo)
                if self.ge(a, va, c) and self.ge(b, vb, c):
                    r.facts[("lt", ph, c)] = False
        return r

    def merge(self, outs, ctx, tag):
        """merge exit states that return the same value and agree on what the client tracks"""
        groups = {}
        self.retctx = ctx
        for o in outs:
            rv = o.tmp.get(("ret", ctx))
            k = (rv if rv is None or is_c(rv) else "?", self.c.part(self, o))
            g = groups.get(k)
            groups[k] = o if g is None else self.join(g, o, tag)
        return list(groups.values())

    def ge(self, st, v, c):
        if is_c(v):
            return isinstance(v[1], (int, float)) and v[1] >= c[1]
        if v[0] in ("op", "phi", "init", "u", ".", "call"):
            return Zone(st.facts).le(c, v)
        return False

    def join_ev(self, a, b):
        return tuple(sorted(set(a) & set(b), key=repr))

    def fresh_phi(self, st, b):
        """state arriving over a back edge at loop head b: values and facts that mention this head's phis describe the
        previous iteration; give them up unless the location still holds exactly its own phi"""
        mine = lambda t: t[0] == "phi" and t[1] == b and t[2] == self.ctx
        moved = set()
        for l, v in st.env.items():
            ph = ("phi", b, self.ctx, l)
            if v != ph:
                moved.add(ph)
        s = st.copy()
        for l, v in st.env.items():
            ph = ("phi", b, self.ctx, l)
            if v != ph and mentions_pred(v, lambda t: mine(t) and t in moved):
                s.env[l] = ph
        return s, moved

    def run_body(self, fn, st0):
        if fn.cfg_err:
            raise Broken("no control flow graph for " + fn.q)
        heads = self.loop_heads(fn)
        seen = {}
        joined = {}
        work = [(fn.entry, st0)]
        outs = []
        outkeys = set()
        nvis = {}
        catches = [b for b in fn.blocks.values() if b.catch]
        for cb in catches:
            cs = st0.copy()
            gl = {l[1] for l in cs.env if l[0] == "g"}
            for a in cs.facts:
                mentions_pred(a, lambda t: t[0] == "g" and (gl.add(t[1]) or False))
            for g in gl:
                self.clobber(cs, ("g", g), cb.id)
            work.append((cb.id, cs))
        once = self.c.once
        while work:
            bid, st = work.pop()
            leave = False
            if bid.__class__ is tuple:
                bid, leave = bid[0], True
            self.steps += 1
            if self.steps > self.budget:
                raise Broken("analysis budget exhausted in " + fn.q)
            if bid == fn.exit:
                k = st.key()
                if k not in outkeys:
                    outkeys.add(k)
                    outs.append(st)
                    if len(outs) > 4 * MAXD:
                        outs = self.merge(outs, self.ctx, ("exit",))
                continue
            if bid in heads and not once:
                old = joined.get(bid)
                if old is None:
                    joined[bid] = st
                else:
                    inc, moved = self.fresh_phi(st, bid)
                    j = self.join(old, st if not moved else self.with_phi(st, inc), bid)
                    # facts about moved phis must hold for the new value, too
                    for f in [f for f in j.facts if mentions_pred(f, lambda t: t in moved)]:
                        if not self.holds_for(st, f, j.facts[f], bid):
                            del j.facts[f]
                    if j.key() == old.key():
                        continue
                    nvis[bid] = nvis.get(bid, 0) + 1
                    if nvis[bid] > 12:
                        j.facts = {}
                        if nvis[bid] > 16:
                            continue
                    joined[bid] = j
                    st = j
            else:
                k = st.key()
                s = seen.setdefault((bid, leave), {})
                if k in s:
                    continue
                if len(s) >= self.c.maxd:
                    j = joined.get((bid, leave))
                    j2 = st if j is None else self.join(j, st, bid)
                    if j is None:
                        for o in list(s.values()):
                            j2 = self.join(j2, o, bid)
                    if j is not None and j2.key() == j.key():
                        continue
                    nvis[bid] = nvis.get(bid, 0) + 1
                    if nvis[bid] > 40:
                        continue
                    joined[(bid, leave)] = j2
                    st = j2
                else:
                    s[k] = st
            b = fn.blocks[bid]
            states = [st.copy()]
            for e in b.e:
                if e < 0:
                    continue
                n = fn.nodes[e]
                nxt = []
                for s in states:
                    k = (self.ctx, n.id)
                    s.tmp.pop(k, None)
                    rs = self.eval1(s, fn, n)
                    if n.id not in fn.parent and n.k not in ("ret",):
                        # value of a full expression is not used again (unless it is the block's condition)
                        if n.id != b.cond:
                            for r in rs:
                                r.tmp.pop(k, None)
                    nxt += rs
                states = self.dedup(nxt)
                if not states:
                    break
            if b.noret:
                continue
            for s in states:
                for t, s2 in self.succs(fn, b, s):
                    if leave and t not in self.loop_exits(fn, bid):
                        continue
                    if once and (bid, t) in fn._back:
                        if nvis.get(("round", t), 0) < 200 and self.decided(fn, t, s2):
                            nvis[("round", t)] = nvis.get(("round", t), 0) + 1
                            work.append((t, s2))
                        elif self.loop_exits(fn, t):
                            work.append(((t,), s2))
                        continue
                    work.append((t, s2))
        return outs

    def decided(self, fn, bid, st):
        """is it certain whether the loop takes another round?"""
        b = fn.blocks[bid]
        if len(b.succ) < 2:
            return False
        states = [st.copy()]
        for e in b.e:
            if e >= 0:
                states = [r for s in states for r in self.eval1(s, fn, fn.nodes[e])]
        return len({t for s in states for t, _ in self.succs(fn, b, s)}) == 1

    def with_phi(self, st, inc):
        return inc

    def holds_for(self, st, f, sense, bid):
        """fact f about this head's phis, restated for the values the phi locations have in st"""
        def sub(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == "phi" and len(t) == 4 and t[1] == bid and t[2] == self.ctx and isinstance(t[3], tuple):
                return self.read(st, t[3])
            return tuple(sub(x) for x in t)
        g = sub(f)
        if g[0] == "nz":
            return query(st, g[1]) == sense
        if g[0] == "lt":
            return query(st, ("op", "<", g[1], g[2])) == sense
        if g[0] == "eq":
            return query(st, ("op", "==", g[1], g[2])) == sense
        return False

    def dedup(self, states):
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        states = list(seen.values())
        if len(states) > 3 * MAXD:
            j = states[0]
            for o in states[1:]:
                j = self.join(j, o, ("mid",))
            states = [j]
        return states

    def succs(self, fn, b, st):
        live = [s for s in b.succ if s is not None]
        if b.cond is None or len(b.succ) < 2:
            for s in live:
                yield s, st.copy() if len(live) > 1 else st
            return
        if b.tk == "SwitchStmt":
            v = self.val(st, fn, b.cond)
            consts = []
            for s in live:
                tb = fn.blocks[s]
                if tb.case:
                    consts.append(self.case_val(fn, tb.case[0]))
            for s in live:
                tb = fn.blocks[s]
                s2 = st.copy()
                if tb.case and len(tb.case) == 1:
                    cv = self.case_val(fn, tb.case[0])
                    if assume_atom(s2, norm_cmp("==", v, cv)):
                        yield s, s2
                elif tb.case:
                    yield s, s2
                else:
                    ok = True
                    for cv in consts:
                        if not assume_atom(s2, norm_cmp("!=", v, cv)):
                            ok = False
                            break
                    if ok:
                        yield s, s2
            return
        c = b.cond
        while True:
            cn = fn.nodes[c]
            if (self.ctx, c) in st.tmp:
                break
            if cn.k == "bin" and cn.a["op"] in ("&&", "||"):
                c = cn.c[1]
                continue
            break
        cn = fn.nodes[c]
        keep = c in fn.parent
        v = self.val(st, fn, c, keep=keep)
        for i, s in enumerate(b.succ[:2]):
            if s is None:
                continue
            s2 = st.copy()
            if assume(s2, v, i == 0):
                if keep:
                    s2.tmp[(self.ctx, c)] = ("R", ("c", 1 if i == 0 else 0)) if v[0] == "op" and v[1] in ("==", "!=", "<", ">", "<=", ">=", "!") else s2.tmp.get((self.ctx, c), ("R", v))
                yield s, s2

    def case_val(self, fn, i):
        n = fn.nodes[i]
        while n.k == "cast":
            n = fn.nodes[n.c[0]]
        if n.k in ("int", "enum", "bool"):
            return ("c", int(n.a["v"]))
        return ("top", i, 0)

    def run(self, fn, setup=None):
        """analyse fn from an unconstrained state; returns the states at its exit with return values"""
        st = State()
        self.steps = 0
        self.stack = [0]
        self.fnstack = [fn.usr]
        if setup:
            setup(st)
        outs = self.run_body(fn, st)
        return [(o, o.tmp.get(("ret", 0))) for o in outs]

    def where(self):
        return [self.p.meta[u] for u in self.fnstack]


# ---- mod/ref summaries -----------------------------------------------------------------------------------------------
def root_of(fn, n):
    """walk an lvalue expression to its root; returns (list of field names outermost last, root node)"""
    path = []
    while True:
        if n.k == "mem":
            path.append(n)
            if not n.c or n.c[0] < 0:
                return path, n
            n = fn.nodes[n.c[0]]
        elif n.k in ("sub", "cast") or (n.k == "un" and n.a["op"] in ("*", "&")):
            n = fn.nodes[n.c[0]]
        elif n.k == "call" and n.a.get("recv") and n.a.get("op") in ("[]", "->", "*"):
            n = fn.nodes[n.c[0]]
        elif n.k == "call" and n.a.get("recv") and (n.a.get("q") or "").rsplit("::", 1)[-1] in ("at", "back", "front", "get", "data"):
            n = fn.nodes[n.c[0]]
        else:
            return path, n
