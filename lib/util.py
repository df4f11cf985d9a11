"""Small helpers shared by the checks (no control flow; see flow.py for that)."""
import re


def strip(fn, n):
    """look through casts, copies and parentheses"""
    while True:
        if n.k == "cast" and n.c:
            n = fn.nodes[n.c[0]]
        elif n.k == "ctor" and (n.g("copy") or n.g("move")) and len(n.c) == 1:
            n = fn.nodes[n.c[0]]
        else:
            return n


def base_type(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r"(\s*&)+$", "", t).strip()
        t = re.sub(r"^(const|volatile)\s+", "", t)
        t = re.sub(r"\s+const$", "", t)
        if t == o:
            return t


def local_writes(fn, d):
    """nodes that may write local variable d: (node, kind) ; declaration initialisers are ('decl', init)"""
    res = []
    for n in fn.nodes:
        if n.k == "decl":
            for v, i in n.g("ds"):
                if v == d:
                    res.append(("decl", fn.nodes[i] if i >= 0 else None))
        elif n.k == "asg":
            l = strip(fn, fn.nodes[n.c[0]])
            if l.k == "ref" and l.g("d") == d:
                res.append(("asg", n))
        elif n.k == "un" and n.g("op") in ("++", "--", "p++", "p--", "&"):
            l = strip(fn, fn.nodes[n.c[0]])
            if l.k == "ref" and l.g("d") == d:
                res.append(("un", n))
        elif n.k in ("call", "ctor"):
            pm = n.g("pm") or ""
            kids = list(n.c)
            if n.g("recv"):
                r = strip(fn, fn.nodes[kids[0]]) if kids[0] >= 0 else None
                if r is not None and r.k == "ref" and r.g("d") == d and not n.g("const"):
                    res.append(("recv", n))
                kids = kids[1:]
            for j, i in enumerate(kids):
                if i < 0:
                    continue
                a = strip(fn, fn.nodes[i])
                if a.k == "ref" and a.g("d") == d and j < len(pm) and pm[j] == "r":
                    res.append(("out", n))
    return res


def const_strings(fn, n, depth=0, seen=()):
    """set of constant strings the expression can denote, or None when it is not constant"""
    if depth > 12:
        return None
    n0 = n
    n = strip(fn, n)
    if n.k == "str":
        return {n.g("v")}
    if n.k == "cond":
        a, b = const_strings(fn, fn.nodes[n.c[1]], depth + 1, seen), const_strings(fn, fn.nodes[n.c[2]], depth + 1, seen)
        return None if a is None or b is None else a | b
    if n.k == "ctor":
        q = n.g("q") or ""
        if ("basic_string" in q or "basic_format_string" in q) and n.c:
            return const_strings(fn, fn.nodes[n.c[0]], depth + 1, seen)
        return None
    if n.k == "call":
        q = n.g("q") or ""
        last = q.rsplit("::", 1)[-1]
        if last in ("c_str", "data", "runtime", "move", "forward", "operator basic_string_view") or last.startswith("operator basic_string_view") or last.startswith("operator std::"):
            return const_strings(fn, fn.nodes[n.c[0]], depth + 1, seen) if n.c else None
        if last == "operator+" and len(n.c) == 2:
            a, b = const_strings(fn, fn.nodes[n.c[0]], depth + 1, seen), const_strings(fn, fn.nodes[n.c[1]], depth + 1, seen)
            return None if a is None or b is None else {x + y for x in a for y in b}
        if last in ("operator[]", "at") and n.c:
            t = strip(fn, fn.nodes[n.c[0]])
            if t.k == "ref":
                return table_strings(fn, t)
            return None
        return returned_strings(fn.prog, n, depth)
    if n.k == "sub":
        t = strip(fn, fn.nodes[n.c[0]])
        return table_strings(fn, t) if t.k == "ref" else None
    if n.k == "ref":
        v = fn.vars[n.g("d")]
        if v.kind in ("local", "static", "var"):
            if n.g("d") in seen:
                return None
            ws = local_writes(fn, n.g("d"))
            res = set()
            for kind, w in ws:
                if kind == "decl":
                    if w is None:
                        continue
                    s = const_strings(fn, w, depth + 1, seen + (n.g("d"),))
                elif kind == "asg" and w.g("op") == "=":
                    s = const_strings(fn, fn.nodes[w.c[1]], depth + 1, seen + (n.g("d"),))
                elif kind == "recv" and (w.g("q") or "").endswith("operator="):
                    s = const_strings(fn, fn.nodes[w.c[1]], depth + 1, seen + (n.g("d"),))
                else:
                    return None
                if s is None:
                    return None
                res |= s
            return res or None
        if v.kind in ("global", "smember"):
            for g in fn.prog.globals.values():
                if g.u == v.u and g.const and g.nodes:
                    lits = [x for x in g.nodes if x.k == "str"]
                    others = [x for x in g.nodes if x.k in ("call", "ref")]
                    if len(lits) == 1 and not others:
                        return {lits[0].g("v")}
        return None
    return None


def table_strings(fn, ref):
    """texts held by a global table that is only filled by its initialiser"""
    v = fn.vars[ref.g("d")]
    for g in fn.prog.globals.values():
        if g.u == v.u and g.nodes:
            res = {x.g("v") for x in g.nodes if x.k == "str"}
            if res and not any(x.k == "call" for x in g.nodes):
                return res | {""}
    return None


_rs = {}


def returned_strings(prog, call, depth):
    key = (id(prog), tuple(prog.targets(call)))
    if key not in _rs:
        _rs[key] = None         # recursion: not constant
        _rs[key] = _returned_strings(prog, call, depth)
    return _rs[key]


def _returned_strings(prog, call, depth):
    """constants a function with a body can return (all targets of the call), or None"""
    us = prog.targets(call)
    if not us or len(us) > 12:
        return None
    res = set()
    for u in us:
        f = prog.fn(u)
        if f is None:
            return None
        for r in f.nodes:
            if r.k == "ret":
                if not r.c:
                    return None
                s = const_strings(f, f.nodes[r.c[0]])
                if s is None:
                    return None
                res |= s
    return res or None


NUMERIC = re.compile(r"^(unsigned |signed )?(int|long|short|char|long long|double|float|bool)$")


def brace_free(fn, n, depth=0, seen=()):
    """the text denoted by the expression cannot contain braces: built from brace-free constants and numbers only"""
    if depth > 10:
        return False
    n = strip(fn, n)
    s = const_strings(fn, n)
    if s is not None:
        return not any("{" in x or "}" in x for x in s)
    if NUMERIC.match(base_type(n.t)) or fn.prog.enums.get(base_type(n.t)):
        return True
    kids = [fn.nodes[i] for i in n.c if i >= 0]
    if n.k == "cond":
        return all(brace_free(fn, x, depth + 1, seen) for x in kids[1:])
    if n.k == "ctor" and "basic_string" in (n.g("q") or ""):
        return all(brace_free(fn, x, depth + 1, seen) for x in kids)
    if n.k == "call":
        last = (n.g("q") or "").rsplit("::", 1)[-1]
        if last == "to_string":
            return True
        if last in ("c_str", "data", "operator+", "append", "str", "substr") or last.startswith("operator basic_string_view"):
            return all(brace_free(fn, x, depth + 1, seen) for x in kids)
        if last == "format" and kids:
            ss = const_strings(fn, kids[0])
            if ss is not None and not any("{{" in x or "}}" in x for x in ss):
                return all(brace_free(fn, x, depth + 1, seen) for x in kids[1:])
            return False
        us = fn.prog.targets(n)
        if not us or len(us) > 12:
            return False
        for u in us:
            f = fn.prog.fn(u)
            if f is None or u in seen:
                return False
            for r in f.nodes:
                if r.k == "ret" and not (r.c and brace_free(f, f.nodes[r.c[0]], depth + 2, seen + (u,))):
                    return False
        return True
    if n.k == "ref":
        v = fn.vars[n.g("d")]
        if v.kind not in ("local", "var") or n.g("d") in seen:
            return False
        for kind, w in local_writes(fn, n.g("d")):
            if w is None:
                continue
            if kind == "decl":
                ok = brace_free(fn, w, depth + 1, seen + (n.g("d"),))
            elif kind == "asg":
                ok = brace_free(fn, fn.nodes[w.c[1]], depth + 1, seen + (n.g("d"),))
            elif kind == "recv" and (w.g("q") or "").rsplit("::", 1)[-1] in ("operator=", "operator+=", "append", "assign", "push_back"):
                ok = all(brace_free(fn, fn.nodes[x], depth + 1, seen + (n.g("d"),)) for x in w.c[1:] if x >= 0)
            elif kind == "recv" and (w.g("q") or "").rsplit("::", 1)[-1] in ("c_str", "data", "begin", "end", "clear", "reserve", "pop_back"):
                ok = True
            else:
                ok = False
            if not ok:
                return False
        return True
    return False
