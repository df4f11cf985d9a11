"""Parameters and variables: typed access, text form, scopes.

Decision tables of the accessors over the declared type (and over unknown names), of the declaration reader over the type
keyword, of the actions that change variables, and of the library functions over the store they address; a path analysis of
the scopes (every declaration inside a scope that is closed on all paths, no assignment of a catalog reference outliving it).
"""
import algebra as al
from extract import Broken
from flow import Engine, Client, NULL, addr
from trace import Trace, explore
from must import Must
from util import strip, local_writes, const_strings
from E04 import enumval, quiet

ASSUMPTIONS = ["exceptions and quits end the reading of the scenario, so scopes need not be closed on them",
               "the conversion functions strtoi, strtod and to_string are trusted"]
NS = "scenarioengine::"
P = NS + "Parameters::"
FIELD = {"INTEGER": "_int", "DOUBLE": "_double", "STRING": "_string", "BOOL": "_bool"}
GET = {"getParameterValueInt": "INTEGER", "getParameterValueDouble": "DOUBLE", "getParameterValueString": "STRING", "getParameterValueBool": "BOOL"}
CPP = {"int": "INTEGER", "double": "DOUBLE", "const char *": "STRING", "bool": "BOOL"}
ENTRY = ("g", "ENTRY")


class T(Trace):
    limit = 24


def shape(f):
    """how a setter gets its value"""
    t = f.vars[f.params[1]].t
    return CPP.get(t) or ("any" if "void" in t else None)


def table(p, f, ty, consts=None, more=None):
    def watch(name, q, r, vals, n):
        if name == "getParameterEntry":
            return "", (NULL if ty is None else addr(ENTRY))
        return quiet(name, q, r, vals, n)

    def wr(path, val, n):
        return "write " + path if path.startswith("ENTRY.") else None
    c = dict(consts or {})
    if ty is not None:
        c["ENTRY.type"] = ty
    return explore(p, f, T(watch, ("Parameters.cpp",), writes=wr), c, None, more)


def run(ctx):
    p = ctx.program()
    types = [(n, enumval(p, "PARAM_TYPE_" + n, "ParameterType")) for n in FIELD]
    getters(ctx, p, types)
    setters(ctx, p, types)
    declarations(ctx, p)
    lookup(ctx, p)
    actions(ctx, p, types)
    library(ctx, p)
    scopes(ctx, p)
    resolved(ctx, p)


def failed(ctx, f, rs, what, want=-1):
    ctx.check(bool(rs), what, f.loc(), "does not return")
    for r in rs:
        ctx.count("cases analysed")
        ctx.check(r.ret is not None and al.poly_str(r.ret) == str(want), what + ": result", f.loc(), "returns %s instead of %s" % (al.poly_str(r.ret), want))
        ctx.check(not r.ev, what + ": effect", f.loc(), "changes the entry: %s" % (r.ev,))


def getters(ctx, p, types):
    for f in [x for n in GET for x in p.q(P + n)] + p.q(P + "getParameterValue"):
        own = GET.get(f.name)
        what = f.name
        failed(ctx, f, table(p, f, None), what + " of unknown name")
        for n, v in types:
            rs = table(p, f, v)
            w = "%s of %s" % (what, n)
            if own and own != n:
                failed(ctx, f, rs, w)
                d = f.params[1]
                for r in rs:
                    x = r.eng.read(r.st, ("d", ("init", ("v", 0, d, f.vars[d].name))))
                    ctx.check(x == ("init", ("d", ("init", ("v", 0, d, f.vars[d].name)))), w + ": output", f.loc(), "sets the result to %s although it fails" % al.poly_str(x))
                continue
            ctx.check(bool(rs), w, f.loc(), "does not return")
            for r in rs:
                ctx.count("cases analysed")
                d = f.params[1]
                x = r.eng.read(r.st, ("d", ("init", ("v", 0, d, f.vars[d].name))))
                ctx.check(al.poly_str(r.ret) == "0", w + ": result", f.loc(), "returns %s" % al.poly_str(r.ret))
                ctx.check(al.poly_str(x).replace("c_str(", "").rstrip(")") == "ENTRY.value." + FIELD[n], w + ": value", f.loc(), "gives %s instead of the %s value of the entry" % (al.poly_str(x), n))
                ctx.check(not r.ev, w + ": effect", f.loc(), "changes the entry: %s" % (r.ev,))
    f = p.q1(P + "getParameterValueAsString")
    for n, v in types:
        for b in (0, 1):
            for r in table(p, f, v, {"ENTRY.value._bool": b}):
                ctx.count("cases analysed")
                s = al.poly_str(r.ret)
                want = {"INTEGER": ("to_string(ENTRY.value._int)", "ENTRY.value._string"), "DOUBLE": ("to_string(ENTRY.value._double)", "ENTRY.value._string"), "STRING": ("ENTRY.value._string",),
                        "BOOL": ("'true'" if b else "'false'", "ENTRY.value._string")}[n]
                ctx.check(s in want, "text of %s" % n, f.loc(), "is %s instead of %s" % (s, want[0]))


def stored(ctx, f, rs, n, what, value, text):
    """the entry holds value in the field of its type and its text, and is marked"""
    ctx.check(bool(rs), what, f.loc(), "does not return")
    for r in rs:
        ctx.count("cases analysed")
        ctx.check(r.ret is None or al.poly_str(r.ret) == "0", what + ": result", f.loc(), "returns %s" % al.poly_str(r.ret or NULL))
        for fl in FIELD.values():
            s = al.poly_str(r.value("ENTRY.value." + fl))
            if fl == "_string":
                ctx.check(s in text, what + ": text", f.loc(), "the text is %s instead of %s" % (s, text[0]))
            elif fl == FIELD[n]:
                ctx.check(s in value, what + ": value", f.loc(), "the value is %s instead of %s" % (s, value[0]))
            else:
                ctx.check(r.unchanged("ENTRY.value." + fl), what + ": " + fl, f.loc(), "the value of another type is changed to %s" % s)
        ctx.check(r.const("ENTRY.dirty") == 1, what + ": mark", f.loc(), "the entry is not marked as set, so a declaration will override the value")
        ctx.check(r.value("ENTRY.type") and not any(e.endswith((".type", ".name", ".variable")) for e in r.ev), what + ": declaration", f.loc(), "type or name of the entry is changed")


def setters(ctx, p, types):
    fs = p.q(P + "setParameterValue")
    kinds = {shape(f) for f in fs}
    for k in ("INTEGER", "DOUBLE", "STRING", "BOOL", "any"):
        ctx.check(k in kinds, "setter for %s" % k, fs[0].loc() if fs else "", "no setter for %s" % k)
    for f in fs:
        own = shape(f)
        if own is None:
            continue
        failed(ctx, f, table(p, f, None), "setParameterValue(%s) of unknown name" % own)
        for n, v in types:
            w = "setParameterValue(%s) of %s" % (own, n)
            if own not in ("any", n):
                failed(ctx, f, table(p, f, v), w)
                continue
            d = f.params[1]
            l = ("v", 0, d, f.vars[d].name)
            if own == "any":
                l = ("d", ("init", l))
            if n == "BOOL":
                for b in (0, 1):
                    rs = table(p, f, v, None, lambda st: st.env.__setitem__(l, ("c", b)))
                    stored(ctx, f, rs, n, "%s, %d" % (w, b), (str(b),), ("'true'" if b else "'false'",))
            else:
                s = al.poly_str(("init", l))
                stored(ctx, f, table(p, f, v), n, w, (s,), (s,) if n == "STRING" else ("to_string(%s)" % s,))
    f = p.q1(P + "setParameterValueByString")
    failed(ctx, f, table(p, f, None), "setParameterValueByString of unknown name")
    s = f.vars[f.params[1]].name
    for n, v in types:
        w = "setParameterValueByString of %s" % n
        if n == "BOOL":
            for b in ("true", "false"):
                stored(ctx, f, table(p, f, v, {"$1": b}), n, "%s, %s" % (w, b), (str(int(b == "true")),), ("'%s'" % b,))
        else:
            stored(ctx, f, table(p, f, v), n, w, {"INTEGER": ("INT(%s)" % s,), "DOUBLE": ("REAL(%s)" % s,), "STRING": None}[n], (s,))


class Decl(T):
    """captures the entry that is added to the declarations"""
    def __init__(self, watch):
        T.__init__(self, watch)
        self.entries = []

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        if name in ("insert", "push_back", "emplace", "emplace_back") and recv is not None and al.path(recv).endswith(".Parameter"):
            a = args[-1]
            e = {}
            for k in ("type", "value._int", "value._double", "value._bool", "value._string", "name", "variable"):
                if a[0] == "L":
                    l = a[1]
                    for x in k.split("."):
                        l = ("f", l, x)
                    e[k] = eng.read(st, l)
            front = name in ("insert", "emplace") and any(x.k == "call" and str(x.g("q", "")).endswith("begin") for x in below(n.fn, n.c[1:2]))
            self.entries.append((e, front, n))
            return [(st, NULL)]
        return T.call(self, eng, st, n, q, recv, args)


def below(fn, ids):
    todo = [i for i in ids if i >= 0]
    while todo:
        n = fn.nodes[todo.pop()]
        yield n
        todo += [c for c in n.c if c >= 0]


def declarations(ctx, p):
    """type keyword -> type and value of the declared parameter"""
    f = p.q1(P + "parseParameterDeclarations")
    words = {"integer": "INTEGER", "int": "INTEGER", "double": "DOUBLE", "boolean": "BOOL", "bool": "BOOL", "string": "STRING"}
    for w, n in words.items():
        for text in (("true", "false") if n == "BOOL" else (None,)):
            def watch(name, q, r, vals, nn):
                if name == "ReadAttribute":
                    return "", (("c", text) if text else ("init", ("g", "TEXT")))
                if name in ("operator==", "operator!=") and len(vals) == 2:
                    lit = [v[1] for v in vals if v[0] == "c" and isinstance(v[1], str)]
                    if len(lit) == 1 and lit[0] not in ("true", "false"):
                        return "", ("c", int((lit[0] == w) == (name == "operator==")))
                return quiet(name, q, r, vals, nn)
            t = Decl(watch)
            explore(p, f, t, {})
            what = "declaration of type %s%s" % (w, ", " + text if text else "")
            ctx.check(bool(t.entries), what, f.loc(), "no parameter is declared")
            origins = set()
            for e, front, node in t.entries:
                ctx.count("cases analysed")
                if not e:
                    ctx.count("undetermined results")
                    continue
                s = {k: al.poly_str(v) for k, v in e.items()}
                want = enumval(p, "PARAM_TYPE_" + n, "ParameterType")
                ctx.check(s["type"] == str(want) or not s["type"].lstrip("-").isdigit(), what + ": type", f.loc(node), "the declared type is %s" % s["type"])
                src = s["value._string"]
                if "?" in src:
                    ctx.count("undetermined results")
                    continue
                ok = src == "TEXT" or text and src == "'%s'" % text or src.endswith("].value._string") and "catalog_param_assignments" in src
                ctx.check(ok, what + ": text", f.loc(node), "the text is %s" % src)
                origins.add("assigned" if "catalog" in src else "declared")
                got = s.get("value." + FIELD[n])
                if n == "BOOL" and src.startswith("'"):
                    ctx.check(got == str(int(text == "true")), what + ": value", f.loc(node), "the value is %s" % got)
                elif n in ("INTEGER", "DOUBLE"):
                    ctx.check(got == "%s(%s)" % ("INT" if n == "INTEGER" else "REAL", src), what + ": value", f.loc(node), "the value is %s" % got)
            for o in ("assigned", "declared"):
                ctx.check(not t.entries or o in origins or not any(e for e, _, _ in t.entries), what + ": %s value" % o, f.loc(), "the %s value is never used" % o)


def lookup(ctx, p):
    """the innermost declaration of the name is found, with and without prefix"""
    ins = Decl(quiet)
    d = p.q1(P + "parseParameterDeclarations")
    explore(p, d, ins, {})
    front = {fr for _, fr, _ in ins.entries}
    ctx.check(len(front) == 1, "order of declarations", d.loc(), "declarations are added at both ends")
    for fname in ("getParameterEntry", "getParameter"):
        f = p.q1(P + fname)
        for hits in ((), (0,), (1,), (0, 1)):
            for prefixed in (0, 1):
                def watch(name, q, r, vals, n):
                    if name in ("operator==", "operator!=") and len(vals) == 2:
                        s = [al.poly_str(v) for v in vals]
                        for i in (0, 1):
                            e = [x for x in s if "Parameter[%d].name" % i in x]
                            o = [x for x in s if "Parameter[" not in x]
                            if len(e) == 1 and len(o) == 1 and o[0] in ("name", "$0"):
                                same = i in hits and (("+" in e[0]) == bool(prefixed))
                                return "", ("c", int(same == (name == "operator==")))
                    return quiet(name, q, r, vals, n)
                base = "this.parameterDeclarations_.Parameter" if fname == "getParameterEntry" else None

                def more(st):
                    for l in sizes(p):
                        st.env[l] = ("c", 2)
                rs = explore(p, f, T(watch), None, None, more)
                what = "%s, %s of the declarations match%s" % (fname, list(hits) or "none", " with prefix" if prefixed else "")
                for r in rs:
                    ctx.count("cases analysed")
                    s = al.poly_str(r.ret)
                    if not hits:
                        if fname == "getParameterEntry":
                            ctx.check(s == "0", what, f.loc(), "an entry is found: %s" % s)
                        continue
                    if "Parameter[" not in s and s != "0":
                        ctx.count("undetermined results")
                        continue
                    first = hits[0] if front == {True} else hits[-1]
                    ctx.check("Parameter[%d]" % first in s, what, f.loc(), "finds %s, which is not the innermost declaration" % s)
                    if fname == "getParameter":
                        ctx.check(s.endswith(".value._string"), what + ": text", f.loc(), "gives %s instead of the text of the parameter" % s)


def sizes(p):
    from trace import loc
    a = loc("this.parameterDeclarations_.Parameter")
    b = ("f", ("f", ("g", NS + "ScenarioReader::parameters"), "parameterDeclarations_"), "Parameter")
    return [("f", x, "#size") for x in (a, b)]


def actions(ctx, p, types):
    """actions on parameters and variables"""
    for cls, op in (("VariableAddAction", "+"), ("VariableMultiplyByAction", "*"), ("VariableSetAction", "="), ("ParameterSetAction", "=")):
        f = p.q1(NS + cls + "::Start")

        def watch(name, q, r, vals, n):
            if name == "Start":
                return "start", NULL
            return quiet(name, q, r, vals, n)
        for n, v in types:
            if op != "=" and n not in ("INTEGER", "DOUBLE"):
                continue
            if op == "=" and n == "BOOL":
                continue

            def w2(name, q, r, vals, nn):
                if name == "getParameterEntry":
                    ok = vals and al.poly_str(vals[0]) in ("this.name_", "name_")
                    return ("" if ok else "another name: %s" % al.poly_str(vals[0])), addr(ENTRY)
                return watch(name, q, r, vals, nn)
            rs = explore(p, f, T(w2, ("Parameters.cpp",)), {"ENTRY.type": v})
            what = "%s on %s" % (cls, n)
            ctx.check(bool(rs), what, f.loc(), "does not return")
            for r in rs:
                ctx.count("cases analysed")
                ctx.check(not [e for e in r.ev if e.startswith("another")], what + ": name", f.loc(), "addresses %s" % (r.ev,))
                ctx.check("start" in r.ev, what + ": start", f.loc(), "the action is not started")
            for r in rs:
                r.ret = None
                r.ev = ()
            old, val = "ENTRY.value." + FIELD[n], "this.value_"
            value = {"+": al.pstr(al.expect("%s + %s" % (old, val))), "*": al.pstr(al.expect("%s * %s" % (old, val))),
                     "=": {"INTEGER": "INT(%s)", "DOUBLE": "REAL(%s)", "STRING": "%s"}[n] % val}[op]
            stored(ctx, f, rs, n, what, (value,), ((val,) if op == "=" else ("to_string(%s)" % value,)))


API = {"SE_Set%s": ("setParameterValue", "any"), "SE_Get%s": ("getParameterValue", None)}
for _s, _t in (("Int", "INTEGER"), ("Double", "DOUBLE"), ("String", "STRING"), ("Bool", "BOOL")):
    API["SE_Set%s" + _s] = ("setParameterValue", _t)
    API["SE_Get%s" + _s] = ("getParameterValue" + _s, None)
API["SE_GetNumberOf%ss"] = ("GetNumberOfParameters", None)
API["SE_Get%sName"] = ("GetParameterName", None)


def library(ctx, p):
    """library functions address the store they are named after, through the accessor of their type"""
    for kind, store in (("Parameter", "parameters"), ("Variable", "variables")):
        for pat, (acc, over) in API.items():
            f = p.q1(pat % kind)

            def watch(name, q, r, vals, n):
                if q.startswith(P):
                    ts = [shape(p.fn(u)) for u in p.targets(n) if u in p.src and len(p.fn(u).params) > 1] if name == "setParameterValue" else [None]
                    s = [al.poly_str(v) for v in vals]
                    return "%s %s %s %s" % ((r or "?").replace("->", ".").rsplit("::", 1)[-1].rsplit(".", 1)[-1], name, ts[0] if ts else "?", ",".join(s)), ("init", ("g", "RESULT"))
                return quiet(name, q, r, vals, n)
            rs = explore(p, f, T(watch, ("playerbase.cpp",)))
            what = f.name
            evs = [r for r in rs if r.ev]
            ctx.check(bool(evs), what, f.loc(), "never reaches the %s" % store)
            for r in rs:
                ctx.count("cases analysed")
                if not r.ev:
                    continue
                t = [e.split(" ", 3) for e in r.ev]
                ctx.check(all(e[0] == store for e in t), what + ": store", f.loc(), "addresses %s" % t[0][0])
                ctx.check(len(t) == 1 and t[0][1] == acc and t[0][2] == str(over), what + ": accessor", f.loc(), "uses %s" % (r.ev,))
                ctx.check(args_ok(f, t[0][3]), what + ": arguments", f.loc(), "passes on %s" % t[0][3])
                if "Name" not in pat:
                    ctx.check(al.poly_str(r.ret) == "RESULT", what + ": result", f.loc(), "returns %s instead of what the accessor reports" % al.poly_str(r.ret))


def args_ok(f, s):
    ps = [f.vars[d].name for d in f.params]
    if not ps:
        return s == ""
    a = s.split(",")
    if len(ps) == 1:
        return a == [ps[0] + ".name", ps[0] + ".value"]
    return len(a) == len(ps) and all(x == y or x == "?" or y in x for x, y in zip(a, ps))


# scopes -----------------------------------------------------------------------------------------------------------------
OPEN, CLOSE, ADD, ASSIGN = "CreateRestorePoint", "RestoreParameterDeclarations", "addParameterDeclarations", "ResolveCatalogReference"


def scopes(ctx, p):
    internals(ctx, p)
    eng = Engine(p, Client())
    assignments(ctx, p, eng)
    users = {}
    for f in p.all():
        if f.q.startswith(P):
            continue
        for n in f.calls():
            q = str(n.g("q", ""))
            if q in (P + OPEN, P + CLOSE, P + ADD):
                users[f.usr] = f
    ctx.need("functions that use parameter scopes", len(users), 5)
    esc = {}
    todo = list(users.values())
    for f in todo:
        esc[f.usr] = walk(ctx, p, eng, f, {}, report=False)
    # a function that declares without opening a scope needs one around each call
    loose = {u for u, e in esc.items() if e}
    callers = {}
    for f in p.all():
        for n in f.calls():
            for u in loose & set(p.targets(n)):
                callers.setdefault(f.usr, f)
    for f in list(users.values()) + [c for u, c in callers.items() if u not in users]:
        walk(ctx, p, eng, f, loose, report=True)
    for u in loose:
        ctx.check(any(u in p.targets(n) for f in p.all() for n in f.calls()), "scope of the declarations in " + p.fn(u).name, p.fn(u).loc(), "declares parameters outside any scope")


def walk(ctx, p, eng, f, loose, report):
    """states (depth, declarations since the innermost scope was opened) at each block; returns whether declarations escape"""
    inn = {f.entry: {(0, 0)}}
    work = [f.entry]
    escape = False
    ends = {}
    while work:
        b = f.blocks[work.pop()]
        for s in list(inn[b.id]):
            d, k = s
            dead = b.noret
            for e in b.e:
                n = f.nodes[e] if e >= 0 else None
                if n is None or dead:
                    continue
                if n.k == "throw":
                    dead = True
                if n.k != "call":
                    continue
                q = str(n.g("q", ""))
                if q == P + OPEN:
                    d, k = min(d + 1, 6), 0
                elif q == P + CLOSE:
                    if report:
                        ctx.check(d > 0, "%s: closing of a scope" % f.q, f.loc(n), "a scope is closed that was not opened in this function")
                    d, k = max(d - 1, 0), 0
                elif q == P + ADD:
                    if d == 0:
                        escape = True
                elif loose and set(p.targets(n)) & loose:
                    if report:
                        ctx.check(d > 0, "%s: scope around %s" % (f.q, q.rsplit("::", 1)[-1]), f.loc(n), "declarations read by %s are not undone after it: they remain visible to the rest of the scenario" % q.rsplit("::", 1)[-1])
                        ctx.check(k == 0, "%s: scope of its own for %s" % (f.q, q.rsplit("::", 1)[-1]), f.loc(n), "declarations read by an earlier call are visible to this one")
                    k = 1
                elif n.g("nr") or (n.g("u") and not n.g("virt") and eng.never_returns(n.g("u"))):
                    dead = True
            if dead:
                continue
            for t in b.succ:
                if t is None:
                    continue
                if t == f.exit:
                    ends.setdefault(d, b)
                    continue
                if (d, k) not in inn.setdefault(t, set()):
                    inn[t].add((d, k))
                    work.append(t)
    if report:
        ctx.count("functions with scopes analysed")
        for d, b in ends.items():
            n = next((f.nodes[e] for e in reversed(b.e) if e >= 0), None)
            ctx.check(d == 0, "%s: scopes closed" % f.q, f.loc(n), "the function may end with %d scope(s) still open" % d)
    return escape


def assignments(ctx, p, eng):
    """what a catalog reference assigns is forgotten before the function that resolves it ends"""
    closes = Must(p, lambda fn, n: n.k == "call" and str(n.g("q", "")) == P + CLOSE)
    for f in p.all():
        sites = [n for n in f.calls() if str(n.g("q", "")).endswith("::" + ASSIGN)]
        if not sites:
            continue
        ctx.count("functions that resolve catalog references")
        inn = {f.entry: {0}}
        work = [f.entry]
        while work:
            b = f.blocks[work.pop()]
            for s in list(inn[b.id]):
                pend, dead = s, b.noret
                for e in b.e:
                    n = f.nodes[e] if e >= 0 else None
                    if n is None or dead:
                        continue
                    if n.k == "throw":
                        dead = True
                    if n.k not in ("call", "ctor"):
                        continue
                    if n in sites:
                        ctx.check(not pend, "%s: assignments of %s" % (f.q, "another catalog reference"), f.loc(n), "assignments of an earlier catalog reference still apply to this one")
                        pend = n.id
                    elif closes.node(f, n):
                        pend = 0
                    elif n.k == "call" and (n.g("nr") or (n.g("u") and not n.g("virt") and eng.never_returns(n.g("u")))):
                        dead = True
                if dead:
                    continue
                for t in b.succ:
                    if t is None:
                        continue
                    if t == f.exit:
                        n = f.nodes[pend] if pend else None
                        ctx.check(not pend, "%s: assignments of the catalog reference" % f.q, f.loc(n), "assignments of the catalog reference are not forgotten: they apply to the next one")
                    elif pend not in inn.setdefault(t, set()):
                        inn[t].add(pend)
                        work.append(t)


def internals(ctx, p):
    """opening remembers the number of declarations once, declaring does not, closing removes what was added"""
    def watch(name, q, r, vals, n):
        if r is not None and r.endswith("paramDeclarationsSize_") and name in ("push", "emplace", "pop", "push_back", "pop_back", "emplace_back"):
            return "%s %s" % ({"p": "push", "e": "push"}[name[0]] if not name.startswith("pop") else "pop", ",".join(al.poly_str(v) for v in vals)), NULL
        if r is not None and r.endswith(".Parameter") and name in ("erase", "resize", "clear"):
            return "remove", NULL
        if r is not None and r.endswith("catalog_param_assignments") and name == "clear":
            return "forget assignments", NULL
        if name == "parseParameterDeclarations":
            return "declare", NULL
        return quiet(name, q, r, vals, n)
    size = "this.parameterDeclarations_.Parameter.#size"
    f = p.q1(P + OPEN)
    for r in explore(p, f, T(watch)):
        ctx.check(r.ev == ("push " + size,), "opening of a scope", f.loc(), "does %s instead of remembering the number of declarations" % (r.ev,))
    f = p.q1(P + ADD)
    for r in explore(p, f, T(watch)):
        ctx.check(r.ev == ("declare",), "declarations in a scope", f.loc(), "does %s: only opening a scope may remember the number of declarations, since closing forgets one" % (r.ev,))
    f = p.q1(P + CLOSE)
    rs = [r for r in explore(p, f, T(watch)) if r.ev]
    ctx.check(bool(rs), "closing of a scope", f.loc(), "does nothing")
    for r in rs:
        ev = sorted(e.strip() for e in r.ev)
        ctx.check(ev == ["forget assignments", "pop", "remove"], "closing of a scope", f.loc(), "does %s instead of removing the declarations added, forgetting the remembered number and the assignments" % (r.ev,))


# attributes that are no values of the scenario: the header of the file and the names of parameters
PLAIN = {"revMajor", "revMinor", "description", "date", "author", "parameterRef", "variableRef", "parameterType", "variableType"}
VALUE = {"value", "as_string", "as_int", "as_uint", "as_double", "as_float", "as_bool", "as_llong", "as_ullong"}


def attr_names(f, n, depth=0):
    """names of the attributes that an xml_attribute expression may stand for (None when unknown)"""
    n = strip(f, n)
    if n.k == "call" and str(n.g("q", "")) == "pugi::xml_node::attribute":
        s = const_strings(f, n.kids()[1]) if len(n.kids()) > 1 else None
        return set(s) if s else None
    if n.k == "ref" and depth < 3 and n.g("d") is not None:
        res = set()
        for kind, x in local_writes(f, n.g("d")):
            if kind == "decl" and x is not None:
                r = attr_names(f, x, depth + 1)
            elif kind == "asg":
                r = attr_names(f, f.nodes[x.c[1]], depth + 1)
            else:
                r = None
            if r is None:
                return None
            res |= r
        return res or None
    return None


def resolved(ctx, p):
    """values of the scenario are read by way of the parameters"""
    for f in p.all():
        if "/ScenarioEngine/" not in f.file or f.q.startswith(P) or "ParameterDistribution" in f.file:
            continue
        sets = any(str(n.g("q", "")).endswith("xml_attribute::set_value") for n in f.calls())
        for n in f.calls():
            q = str(n.g("q", ""))
            if q.startswith(P + "ReadAttribute"):
                ctx.count("attributes read by way of the parameters")
                continue
            if not q.startswith("pugi::xml_attribute::") or q.split("::")[-1] not in VALUE or not n.kids():
                continue
            par = f.nodes[f.parent[n.id]] if n.id in f.parent else None
            while par is not None and par.k == "cast":
                par = f.nodes[f.parent[par.id]] if par.id in f.parent else None
            if par is not None and par.k == "call" and par.g("q") == "strlen":
                continue  # test for a value
            names = attr_names(f, n.kids()[0])
            if names is None:
                ctx.count("attributes of unknown name")
                continue
            ctx.count("attributes read as they are")
            bad = sorted(x for x in names if x not in PLAIN and not (x == "name" and sets))
            ctx.check(not bad, "%s: attribute %s" % (f.q, ",".join(sorted(names))), f.loc(n), "attribute %s is read as it stands: a parameter or expression given as its value is not resolved" % ",".join(bad))
