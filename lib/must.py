"""What happens on every path: a backward-free must analysis over the control flow graphs, with callees followed.

hit(fn, node) says that an element is the event; edge(fn, cond node, taken) may return "hit" (the branch outcome itself establishes the
event), "dead" (the outcome is excluded by assumption), "entered" (the outcome leaves a loop that has been run through at least once)
or None. Paths that end in a call that does not return, or in an
exception, are not considered.
"""
from util import strip


def dtors(prog, n):
    """destructors run by a delete expression"""
    t = n.fn.nodes[n.c[0]].t.rstrip("&").strip()
    if not t.endswith("*"):
        return []
    t = t[:-1].strip()
    t = t[6:] if t.startswith("const ") else t
    return [f for f in prog.q(t + "::~" + t.rsplit("::", 1)[-1])]


class Must:
    def __init__(self, prog, hit, edge=None, stop=None, ignore_ret=None):
        self.p = prog
        self.hit = hit
        self.edge = edge or (lambda fn, c, taken: None)
        self.stop = stop or (lambda fn: False)          # functions not followed
        self.ignore_ret = ignore_ret                    # (fn, return node) -> the exit is not considered
        self.memo = {}
        self.case = None                                # (fn, block of a switch) -> the successor taken, if known

    def node(self, fn, n):
        """the element surely causes the event"""
        if self.hit(fn, n):
            return True
        if n.k in ("call", "ctor"):
            us = [u for u in self.p.targets(n) if u in self.p.src]
            fs = [self.p.fn(u) for u in us]
            return bool(fs) and all(not self.stop(f) and self.always(f) for f in fs)
        if n.k == "delete":
            fs = dtors(self.p, n)
            return bool(fs) and all(self.always(f) for f in fs)
        return False

    def solve(self, fn):
        """block -> event happened on every path to its start"""
        preds = {}
        for b in fn.blocks.values():
            for i, s in enumerate(b.succ):
                if s is not None:
                    preds.setdefault(s, []).append((b, i))
        out = {}
        gen = {b.id: any(e >= 0 and self.node(fn, fn.nodes[e]) for e in b.e) for b in fn.blocks.values()}
        inn = {b: True for b in fn.blocks}
        live = {fn.entry}
        inn[fn.entry] = False
        handlers = {b.id for b in fn.blocks.values() if b.catch}
        for h in handlers:
            inn[h] = False
        back = {}

        def around(h):
            """predecessors of a loop head that come from its body"""
            if h.id not in back:
                seen, todo = set(), [h.succ[0]]
                while todo:
                    x = todo.pop()
                    if x is None or x in seen or x == h.id:
                        continue
                    seen.add(x)
                    todo += fn.blocks[x].succ
                back[h.id] = [(q, i) for q, i in preds.get(h.id, []) if q.id in seen]
            return back[h.id]
        ch = True
        while ch:
            ch = False
            for b in fn.blocks.values():
                if b.id == fn.entry or b.id in handlers:
                    continue
                v, lv = True, False
                for pb, i in preds.get(b.id, []):
                    if pb.id not in live or pb.noret:
                        continue
                    o = inn[pb.id] or gen[pb.id]
                    if len(pb.succ) == 2 and pb.cond is not None and pb.cond >= 0:
                        e = self.edge(fn, fn.nodes[pb.cond], i == 0)
                        if e == "dead" and not (pb.tk or "").startswith(("For", "While", "Do", "CXXFor", "for", "while", "do", "range")):
                            continue
                        if e == "hit":
                            o = True
                        if e == "entered":
                            o = gen[pb.id] or all(inn[q.id] or gen[q.id] for q, _ in around(pb) if q.id in live)
                    elif len(pb.succ) > 2 and self.case and pb.cond is not None and pb.cond >= 0:
                        s = self.case(fn, pb)
                        if s is not None and s != b.id:
                            continue
                    lv = True
                    v = v and o
                if lv and b.id not in live:
                    live.add(b.id)
                    ch = True
                if v != inn[b.id]:
                    inn[b.id] = v
                    ch = True
        return inn, gen, live

    def always(self, fn):
        if fn.usr in self.memo:
            return self.memo[fn.usr]
        self.memo[fn.usr] = False
        if fn.cfg_err:
            return False
        if self.ctor_inits(fn):
            self.memo[fn.usr] = True
            return True
        inn, gen, live = self.solve(fn)
        res = True
        seen = False
        for b in fn.blocks.values():
            if b.id not in live or b.noret or fn.exit not in b.succ:
                continue
            ns = [fn.nodes[e] for e in b.e if e >= 0]
            if any(x.k == "throw" for x in ns):
                continue
            if self.ignore_ret and any(x.k == "ret" and self.ignore_ret(fn, x) for x in ns):
                continue
            if len(b.succ) == 2 and b.cond is not None and b.cond >= 0:
                es = [self.edge(fn, fn.nodes[b.cond], i == 0) for i, s in enumerate(b.succ) if s == fn.exit]
                if all(e is not None for e in es):
                    continue
            seen = True
            res = res and (inn[b.id] or gen[b.id])
        self.memo[fn.usr] = res and seen
        return self.memo[fn.usr]

    def ctor_inits(self, fn):
        return fn.ctor and any(self.hit(fn, n) for n in fn.nodes if n.k == "cinit")

    def before(self, fn, target):
        """nodes satisfying target (or calling something that does) that may be reached before the event"""
        inn, gen, live = self.solve(fn)
        res = []
        for b in fn.blocks.values():
            if b.id not in live:
                continue
            done = inn[b.id]
            for e in b.e:
                if e < 0:
                    continue
                n = fn.nodes[e]
                if not done and target(fn, n):
                    res.append(n)
                done = done or self.node(fn, n)
        return res


def nulltest(fn, c):
    """(expression, sense) tested for null by condition c: sense True when a true outcome means non-null; else None"""
    sense = True
    n = strip(fn, c)
    while n.k == "un" and n.g("op") == "!":
        sense = not sense
        n = strip(fn, fn.nodes[n.c[0]])
    if n.k == "bin" and n.g("op") in ("==", "!="):
        a, b = (strip(fn, fn.nodes[i]) for i in n.c[:2])
        for x, y in ((a, b), (b, a)):
            if y.k in ("null", "zero") or (y.k == "int" and y.g("v") == "0"):
                return x, sense if n.g("op") == "!=" else not sense
        return None
    return n, sense


def globname(fn, n):
    n = strip(fn, n)
    if n.k == "ref":
        v = fn.vars[n.g("d")]
        if v.kind in ("global", "smember"):
            return v.name
        if v.kind == "static":
            return fn.q + "::" + v.name
    return None


CLEAR = ("clear", "Clear", "reset", "Reset", "assign", "operator=", "swap")


def written(fn, n):
    """expression completely overwritten or cleared by an element, or None"""
    if n.k == "asg" and n.g("op") == "=":
        return strip(fn, fn.nodes[n.c[0]])
    if n.k == "call" and n.c and n.c[0] >= 0 and (n.g("recv") or n.g("op") == "="):
        if (n.g("q") or "").rsplit("::", 1)[-1] in CLEAR:
            return strip(fn, fn.nodes[n.c[0]])
    if n.k == "delete":
        return None
    return None


def hit_global(name):
    def h(fn, n):
        x = written(fn, n)
        return x is not None and globname(fn, x) == name
    return h


def hit_field(cls, field):
    def h(fn, n):
        if n.k == "cinit":
            return n.g("f") == field and fn.cls == cls
        x = written(fn, n)
        return x is not None and x.k == "mem" and x.g("f") == field and x.g("cls") == cls
    return h
