"""Transitive write effects of every function.

An effect is (root, deep, what):
  root  "this" | "p<i>" | "g:<name>" | "heap"   the storage the write reaches, seen from the function
  deep  True when a pointer is followed on the way (a copy of the root shares the target)
  what  "Class::field", "g:<name>", "*" (pointee of a parameter), "ext:<function>" (no body and not known to be pure)
Writes to objects owned by the function itself (locals by value, objects it created) are not effects.
"""
import re
from flow import is_ref

PTRMEM = ("at", "back", "front", "get", "data", "begin", "end", "find", "operator[]", "operator->", "operator*", "c_str", "rbegin", "rend",
          "value", "lock")
# library functions without a body that do not write through their receiver even though not declared const
PURE_RECV = {"begin", "end", "rbegin", "rend", "at", "back", "front", "get", "data", "find", "operator[]", "operator->", "operator*", "operator()",
             "lower_bound", "upper_bound", "c_str", "size", "first", "second", "operator==", "operator!=", "operator bool", "cbegin", "cend"}
VAL = re.compile(r"^[^*&]+$")


class Effects:
    def __init__(self, prog, roots, barrier=None):
        """effects of the functions reachable from roots (usrs); calls of functions accepted by barrier are ignored"""
        self.p = prog
        self.barrier = barrier or (lambda f: False)
        self.eff = {}           # usr -> {effect: (fn usr, node id, via usr or None)}
        self.calls = {}         # usr -> [(callee usr, recv root, [arg roots], node id)]
        work = [u for u in roots if u in prog.src]
        seen = set(work)
        while work:
            u = work.pop()
            self.local(prog.fn(u))
            for c in self.calls[u]:
                for x in c[0]:
                    if x not in seen:
                        seen.add(x)
                        work.append(x)
        self.solve()

    # -- roots
    def root(self, fn, i, seen=(), want="loc"):
        """root of the storage denoted by expression i: (root, deep) or None when it is the function's own"""
        n = fn.nodes[i]
        k = n.k
        if k == "cast":
            return self.root(fn, n.c[0], seen) if n.c else None
        if k == "this":
            return ("this", False)
        if k == "ref":
            v = fn.vars[n.g("d")]
            if v.kind in ("global", "smember", "static"):
                q = v.name if v.kind != "static" else fn.q + "::" + v.name
                return ("g:" + q, v.t.endswith(("*", "&")))
            if v.kind == "param":
                i = fn.params.index(n.g("d")) if n.g("d") in fn.params else -1
                if i < 0:
                    return ("heap", True)
                if is_ref(v.t):
                    return ("p%d" % i, False)
                if v.t.endswith("*"):
                    return ("p%d" % i, False)
                return None if not self.handle(v.t) else ("p%d" % i, True)
            if v.outer is not None or v.kind == "capture":
                return ("heap", True)
            if not (v.t.endswith(("*", "&", "* const")) or self.handle(v.t)):
                return None
            # pointer or reference local: where does it point
            d = n.g("d")
            if d in seen:
                return None
            res = None
            for m in fn.nodes:
                src = None
                if m.k == "decl":
                    for x, init in m.g("ds"):
                        if x == d and init >= 0:
                            src = init
                elif m.k == "asg" and m.g("op") == "=" and not is_ref(v.t):
                    l = fn.nodes[m.c[0]]
                    if l.k == "ref" and l.g("d") == d:
                        src = m.c[1]
                elif m.k == "call" and m.g("op") == "=" and m.c and m.g("recv"):
                    l = fn.nodes[m.c[0]]
                    if l.k == "ref" and l.g("d") == d and len(m.c) > 1:
                        src = m.c[1]
                elif m.k in ("call", "ctor") and v.t.endswith("*"):
                    # filled in by the callee
                    kids = m.c[1:] if m.g("recv") else m.c
                    for j, a in enumerate(kids):
                        if a < 0 or j >= len(m.g("pm") or "") or m.g("pm")[j] not in "rp":
                            continue
                        x = fn.nodes[a]
                        while x.k == "cast" or (x.k == "un" and x.g("op") == "&"):
                            if x.k == "un" or m.g("pm")[j] == "r":
                                y = fn.nodes[x.c[0]]
                                if y.k == "ref" and y.g("d") == d:
                                    res = ("heap", True)
                            x = fn.nodes[x.c[0]]
                        if m.g("pm")[j] == "r" and x.k == "ref" and x.g("d") == d:
                            res = ("heap", True)
                if src is not None:
                    r = self.root(fn, src, seen + (d,))
                    if r is not None:
                        if res is None or res == r:
                            res = r
                        else:
                            res = ("heap", True)
            return res
        if k == "mem":
            r = self.root(fn, n.c[0], seen) if n.c and n.c[0] >= 0 else None
            if r is None:
                # member of an own object: only a pointer member leads out of it
                if n.t.endswith("*"):
                    return ("heap", True)
                return None
            if n.t.endswith("*") or self.handle(n.t):
                return (r[0], True)
            return r
        if k == "sub":
            return self.root(fn, n.c[0], seen)
        if k == "un":
            return self.root(fn, n.c[0], seen) if n.g("op") in ("*", "&", "++", "--", "p++", "p--") else None
        if k == "bin" and n.g("op") in ("+", "-"):
            return self.root(fn, n.c[0], seen)
        if k == "cond":
            a, b = self.root(fn, n.c[1], seen), self.root(fn, n.c[2], seen)
            return a if b is None else b if a is None else a if a == b else ("heap", True)
        if k == "asg":
            return self.root(fn, n.c[0], seen)
        if k == "call":
            last = (n.g("q") or "").rsplit("::", 1)[-1]
            if (n.g("q") or "").startswith("std::make_"):
                return None
            ptr = n.t.endswith("*") or n.g("lv") or self.handle(n.t)
            if not ptr:
                return None
            f = self.p.fn(n.g("u")) if n.g("u") else None
            if n.g("recv"):
                r = self.root(fn, n.c[0], seen)
                if f is None:
                    # library accessor: element of the receiver
                    if r is None:
                        return ("heap", True) if n.t.endswith("*") or "*" in n.t else None
                    return (r[0], r[1] or n.t.rstrip("&").strip().endswith("*"))
                if r is None and not n.t.endswith("*") and not n.g("static"):
                    # reference into an own object
                    return None
                if r is not None and not n.t.endswith("*"):
                    return r
                return (r[0], True) if r is not None else ("heap", True)
            if n.g("op") and n.c:      # overloaded operator as free function
                return self.root(fn, n.c[0], seen)
            if f is None and (n.g("q") or "").startswith("std::"):
                for c in n.c:
                    if c >= 0:
                        r = self.root(fn, c, seen)
                        if r is not None:
                            return r
                return None
            if f is not None and f.smeth or (f is not None and not n.g("recv")):
                return ("g:" + f.q, True)
            return ("heap", True)
        if k == "ctor":
            if (n.g("copy") or n.g("move")) and n.c and self.handle(n.t):
                return self.root(fn, n.c[0], seen)
            return None
        if k in ("new", "lambda", "ilist"):
            return None
        return None

    HANDLE = re.compile(r"(shared_ptr|__normal_iterator|_iterator|reference_wrapper|weak_ptr|ref_ptr)\b")

    def handle(self, t):
        return bool(self.HANDLE.search(t.split("<")[0])) or "iterator" in t.split("<")[0]

    def what(self, fn, i):
        n = fn.nodes[i]
        while True:
            if n.k == "mem":
                return "%s::%s" % (n.g("cls"), n.g("f"))
            if n.k in ("cast", "sub") or (n.k == "un"):
                n = fn.nodes[n.c[0]]
            elif n.k == "call" and n.c and (n.g("recv") or n.g("op")):
                n = fn.nodes[n.c[0]]
            elif n.k == "ref":
                v = fn.vars[n.g("d")]
                if v.kind in ("global", "smember"):
                    return "g:" + v.name
                if v.kind == "static":
                    return "g:" + fn.q + "::" + v.name
                t = v.t.rstrip("&* ").strip()
                # reference or pointer local bound to a member
                for m in fn.nodes:
                    if m.k == "decl":
                        for x, init in m.g("ds"):
                            if x == n.g("d") and init >= 0 and v.t.endswith(("&", "*")):
                                w = fn.nodes[init]
                                if w.k != "ref":
                                    return self.what(fn, init)
                return "*" + t
            else:
                return "*" + n.t.rstrip("&* ").strip()

    def add(self, u, e, site):
        d = self.eff.setdefault(u, {})
        if e not in d:
            d[e] = site
            return True
        return False

    def wr(self, fn, i, n):
        r = self.root(fn, i)
        x = fn.nodes[i]
        while x.k == "cast":
            x = fn.nodes[x.c[0]]
        if x.k == "ref":
            v = fn.vars[x.g("d")]
            if v.kind not in ("global", "smember", "static") and not is_ref(v.t) and v.outer is None:
                return          # plain assignment of a local variable (pointers included)
            if v.kind in ("global", "smember", "static"):
                r = ("g:" + v.name if v.kind != "static" else "g:" + fn.q + "::" + v.name, False)
        elif x.k == "mem" and r is not None and (x.t.endswith("*") or self.handle(x.t)):
            # assigning the pointer member itself: the hop of that member is not followed
            b = self.root(fn, x.c[0]) if x.c and x.c[0] >= 0 else None
            if b is None:
                return
            r = b
        elif x.k == "mem" and r is None:
            return
        if r is not None:
            self.add(fn.usr, (r[0], r[1], self.what(fn, i)), (fn.usr, n.id, None))

    def local(self, fn):
        cs = self.calls.setdefault(fn.usr, [])
        for n in fn.nodes:
            if n.k == "asg":
                self.wr(fn, n.c[0], n)
            elif n.k == "un" and n.g("op") in ("++", "--", "p++", "p--"):
                self.wr(fn, n.c[0], n)
            elif n.k == "cinit":
                pass
            elif n.k == "delete":
                r = self.root(fn, n.c[0]) if n.c else None
                if r is not None:
                    self.add(fn.usr, (r[0], True, "delete"), (fn.usr, n.id, None))
            elif n.k in ("call", "ctor"):
                kids = list(n.c)
                q = n.g("q") or ""
                last = q.rsplit("::", 1)[-1]
                recv = None
                if n.g("recv"):
                    recv = kids[0]
                    kids = kids[1:]
                us = [u for u in self.p.targets(n) if u in self.p.src]
                if us:
                    us = [u for u in us if not self.barrier(self.p.fn(u))]
                    rr = self.root(fn, recv) if recv is not None else None
                    cs.append((us, rr, [self.root(fn, i) if i >= 0 else None for i in kids], n.id, n.k == "ctor" and recv is None))
                    continue
                if n.g("ind"):
                    self.add(fn.usr, ("heap", True, "ext:<function pointer>"), (fn.usr, n.id, None))
                    continue
                # no body
                pm = n.g("pm") or ""
                std = q.startswith(("std::", "__gnu_cxx::", "fmt::")) or "::" not in q
                if recv is not None and not n.g("const") and last not in PURE_RECV and not last.startswith("operator "):
                    r = self.root(fn, recv)
                    if r is not None:
                        w = self.what(fn, recv) if std else "ext:" + q
                        if not (r[0].startswith("g:std::")):
                            self.add(fn.usr, (r[0], r[1], w), (fn.usr, n.id, None))
                for j, i in enumerate(kids):
                    if i < 0 or j >= len(pm) or pm[j] not in "rp":
                        continue
                    if last in ("operator<<", "operator>>") and j == 0 and False:
                        continue
                    if q in ("std::move", "std::forward", "std::get", "std::begin", "std::end", "std::addressof", "std::ref", "std::find", "std::find_if"):
                        continue
                    r = self.root(fn, i)
                    if r is not None and not r[0].startswith("g:std::"):
                        self.add(fn.usr, (r[0], r[1], self.what(fn, i)), (fn.usr, n.id, None))
            elif n.k == "lambda":
                u = n.g("u")
                if u and u in self.p.src:
                    cs.append(([u], None, [], n.id, False))

    def subst(self, e, rr, args, isctor):
        root, deep, what = e
        if root == "heap" or root.startswith("g:"):
            return e
        if root == "this":
            if isctor:
                return ("heap", True, what) if deep else None
            b = rr
        else:
            k = int(root[1:])
            b = args[k] if k < len(args) else None
        if b is None:
            return ("heap", True, what) if deep and root == "this" else None
        return (b[0], b[1] or deep, what)

    def solve(self):
        callers = {}
        for u, cs in self.calls.items():
            for c in cs:
                for x in c[0]:
                    callers.setdefault(x, set()).add(u)
        work = list(self.calls)
        inw = set(work)
        while work:
            u = work.pop()
            inw.discard(u)
            ch = False
            for us, rr, args, nid, isctor in self.calls[u]:
                for x in us:
                    for e in list(self.eff.get(x, ())):
                        s = self.subst(e, rr, args, isctor)
                        if s is not None and self.add(u, s, (u, nid, x)):
                            ch = True
            if ch:
                for c in callers.get(u, ()):
                    if c not in inw:
                        inw.add(c)
                        work.append(c)

    def of(self, u):
        return self.eff.get(u, {})

    def trace(self, u, e, lim=12):
        """call path from u to the write"""
        res = []
        seen = set()
        while lim:
            lim -= 1
            s = self.eff.get(u, {}).get(e)
            if s is None or (u, e) in seen:
                break
            seen.add((u, e))
            fn = self.p.fn(s[0])
            n = fn.nodes[s[1]]
            res.append("%s (%s)" % (fn.q.rsplit("::", 1)[-1], fn.loc(n)))
            if s[2] is None:
                break
            nx = None
            for us, rr, args, nid, isctor in self.calls[u]:
                if nid == s[1]:
                    for e2 in self.eff.get(s[2], ()):
                        if self.subst(e2, rr, args, isctor) == e:
                            nx = (s[2], e2)
                            break
            if nx is None:
                break
            u, e = nx
        return " -> ".join(res)


def logging(f):
    """log output is not simulation state"""
    return "/CommonMini/logger." in f.file
