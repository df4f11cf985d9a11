"""Shared by the checks of the C interface: which functions are exported, how their bodies are explored."""
import re
from extract import Broken
from flow import Client, NULL, is_c

LIB = "Libraries/esminiLib/esminiLib.cpp"
RMLIB = "Libraries/esminiRMLib/esminiRMLib.cpp"


def exported(prog, suffix=LIB, prefix="SE_"):
    fs = [f for f in prog.in_file(suffix) if f.externc and f.name.startswith(prefix) and not f.static and not f.cls]
    return sorted(fs, key=lambda f: f.q)


def session_global(prog):
    """the pointer that is null while no scenario is loaded"""
    c = [g for g in prog.globals.values() if g.file.endswith(LIB) and re.match(r"^(scenarioengine::)?ScenarioPlayer \*$", g.t)]
    if len(c) != 1:
        raise Broken("the library's session pointer was not found (%d candidates)" % len(c))
    return c[0].q


def uses_global(prog, f, name, suffix=LIB, seen=None):
    """f or a library-internal function it calls reads the global"""
    seen = seen if seen is not None else set()
    if f.usr in seen:
        return False
    seen.add(f.usr)
    if any(v.kind == "global" and v.name == name for v in f.vars):
        return True
    for n in f.calls():
        g = prog.fn(n.g("u")) if n.g("u") else None
        if g is not None and g.file.endswith(suffix) and uses_global(prog, g, name, suffix, seen):
            return True
    return False


def caller_memory(loc):
    """location lies in memory the caller passed by pointer to the analysed function"""
    while loc[0] in ("f", "i"):
        loc = loc[1]
    return loc[0] == "d" and loc[1][0] == "init" and loc[1][1][0] == "v" and loc[1][1][1] == 0


class LibClient(Client):
    max_inline = 4

    def __init__(self, suffix=LIB):
        self.suffix = suffix
        self.nulls = []
        self.writes = []

    def inline(self, eng, fn, n):
        return fn.file.endswith(self.suffix) or (len(fn.blocks) <= 3 and fn.file.endswith((".hpp", ".h")))

    def deref(self, eng, st, n, ptr):
        if ptr == NULL:
            self.nulls.append(n)

    def write(self, eng, st, n, loc, val):
        if caller_memory(loc):
            self.writes.append((n, loc, val))


# ---- lookups that may find nothing -----------------------------------------------------------------------------------
BYNAME_MAYNULL = {"GetGhost", "GetRoute"}


def may_return_null(prog):
    """usrs of functions that return a pointer and have a path returning null"""
    res = set()
    deps = {}
    from util import strip
    for u, m in prog.meta.items():
        f = prog.fn(u)
        if not f.ret.endswith("*"):
            continue
        if f.name in BYNAME_MAYNULL:
            res.add(u)
        for r in f.nodes:
            if r.k != "ret" or not r.c:
                continue
            work = [f.nodes[r.c[0]]]
            seen = set()
            while work:
                n = strip(f, work.pop())
                if n.k in ("null", "zero") or (n.k == "int" and n.g("v") == "0"):
                    res.add(u)
                elif n.k == "cond":
                    work += [f.nodes[n.c[1]], f.nodes[n.c[2]]]
                elif n.k == "call" and n.g("u"):
                    deps.setdefault(u, set()).update(prog.targets(n))
                elif n.k == "ref" and f.vars[n.g("d")].kind in ("local", "var") and n.g("d") not in seen:
                    seen.add(n.g("d"))
                    for d in f.nodes:
                        if d.k == "decl":
                            for v, i in d.g("ds"):
                                if v == n.g("d") and i >= 0:
                                    work.append(f.nodes[i])
    ch = True
    while ch:
        ch = False
        for u, ds in deps.items():
            if u not in res and ds & res:
                res.add(u)
                ch = True
    return res


def from_param(v, ctx=0):
    from flow import mentions_pred
    return mentions_pred(v, lambda t: t[0] == "init" and t[1][0] == "v" and t[1][1] == ctx and len(t[1]) > 3)
