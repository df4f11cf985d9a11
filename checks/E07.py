"""Every execution of an action starts from the settings of the scenario.

For each class of actions the members that starting, stepping or ending it changes are computed from the program. Such a
member is running state: from the start of an execution on it has to be overwritten before it is read, on every path
through Start and then Step, so that nothing of an earlier execution of the same action has influence. A member that is
only given a default once, depending on nothing but itself, is no running state.
"""
import itertools

from must import Must, nulltest
from util import strip as strip0
from E03 import chain

ASSUMPTIONS = ["objects referred to by an action (trajectories, routes, controllers, positions) are brought up to date by their own operations",
               "an action whose domain is overridden by a controller does nothing, so it needs no running state",
               "a start that does nothing because of the settings of the action does nothing in every execution"]
GROW = ("push_back", "emplace_back", "insert", "emplace", "push_front", "pop_back", "erase", "resize", "push", "pop", "pop_front")
FRESH = ("clear", "assign", "operator=", "reset", "Reset", "swap")
TD = "scenarioengine::OSCPrivateAction::TransitionDynamics"
ROOTS = ("Start", "Step", "End")
BASE = ("StoryBoardElement", "OSCAction", "OSCPrivateAction", "OSCGlobalAction")
# member -> why it may keep its value
KEEP = {
    ("FollowTrajectoryAction", "ignore_heading_for_motion_"): "decided by options and properties that do not change",
    ("LatLaneChangeAction", "heading_agnostic_"): "read before it is written only to limit the repetition of a message",
    ("SwarmTrafficAction", "spawnedV"): "vehicles spawned earlier stay in the traffic and are managed by the action",
}


def run(ctx):
    p = ctx.program()
    transitions(ctx, p)
    n = 0
    for c in sorted(p.subclasses("scenarioengine::OSCAction")):
        if c.rsplit("::", 1)[-1] in BASE:
            continue
        n += action(ctx, p, c)
    ctx.need("running members", n, 25)


def owners(p, c):
    return [c] + [b for b in p.bases(c) if b.rsplit("::", 1)[-1] not in BASE]


def methods(p, c, names):
    for b in [c] + list(p.bases(c)):
        fs = [f for n in names for f in p.q(b + "::" + n)]
        if fs:
            return fs
    return []


def closure(p, roots, cs):
    seen, todo = {}, list(roots)
    while todo:
        f = todo.pop()
        if f.usr in seen:
            continue
        seen[f.usr] = f
        for n in f.nodes:
            if n.k == "call":
                for u in p.targets(n):
                    if u in p.src:
                        g = p.fn(u)
                        if g.cls in cs and not g.ctor and g.name not in ("ReplaceObjectRefs", "Copy", "print"):
                            todo.append(g)
    return seen


def single(f):
    """locals that are initialised and never changed -> initialiser"""
    if not hasattr(f, "_single"):
        init, bad = {}, set()
        for n in f.nodes:
            if n.k == "decl":
                for d, i in n.g("ds") or []:
                    if i is None or i < 0 or d in init:
                        bad.add(d)
                    else:
                        init[d] = i
            if n.k in ("asg", "un") and n.c and n.g("op") not in ("!", "-", "+", "~", "*"):
                t = strip0(f, f.nodes[n.c[0]])
                if t.k == "ref":
                    bad.add(t.g("d"))
            if n.k == "call":
                o = 1 if n.g("recv") else 0
                for j, x in enumerate(n.c[o:]):
                    if x >= 0 and j < len(n.g("pm") or "") and n.g("pm")[j] in "rp":
                        t = strip0(f, f.nodes[x])
                        if t.k == "ref" and n.g("pm")[j] == "r":
                            bad.add(t.g("d"))
        f._single = {d: i for d, i in init.items() if d not in bad}
    return f._single


def strip(f, n, values=False):
    """look through casts and references to members (with values: also through constant copies)"""
    n = strip0(f, n)
    for _ in range(5):
        if n.k != "ref" or n.g("d") not in single(f) or not (values or f.vars[n.g("d")].t.rstrip().endswith("&")):
            break
        n = strip0(f, f.nodes[single(f)[n.g("d")]])
    return n


def own_path(f, n, cs):
    """path below `this` of a member expression reached without following a pointer, or None"""
    parts = []
    n = strip(f, n)
    while n.k in ("mem", "sub"):
        if n.k == "mem":
            parts.append(n)
            if n.g("arrow"):
                b = strip(f, f.nodes[n.c[0]])
                if b.k == "this" and n.g("cls") in cs:
                    return ".".join(x.g("f") for x in reversed(parts))
                return None
        n = strip(f, f.nodes[n.c[0]])
    return None


def changes(f, n, cs):
    """(path, overwritten completely, node written to) of the member changed by an element"""
    if n.k == "asg" or (n.k == "un" and n.g("op") in ("++", "--", "p++", "p--")):
        t = strip(f, f.nodes[n.c[0]])
        m = own_path(f, t, cs)
        if m:
            return m, n.k == "asg" and n.g("op") == "=" and t.k == "mem", t
    if n.k == "call" and n.c and n.c[0] >= 0 and (n.g("recv") or n.g("op") == "="):
        t = strip(f, f.nodes[n.c[0]])
        m = own_path(f, t, cs)
        if m:
            last = (n.g("q") or "").rsplit("::", 1)[-1]
            if last in FRESH:
                return m, True, t
            if last in GROW:
                return m, False, t
    return None


def handed(f, n, cs):
    """member handed out by address or mutable reference: taken as set by the receiver"""
    if n.k == "un" and n.g("op") == "&":
        return own_path(f, f.nodes[n.c[0]], cs)
    return None


def uses(f):
    if not hasattr(f, "_uses"):
        f._uses = {}
        for x in f.nodes:
            for c in x.c:
                if c >= 0:
                    f._uses.setdefault(c, []).append(x)
    return f._uses


def is_read(f, n, path, cs):
    if n.k != "mem" or own_path(f, n, cs) != path:
        return False
    todo, real = [n], []
    while todo:
        for x in uses(f).get(todo.pop().id, []):
            (todo if x.k in ("cast", "paren") else real).append(x)
    for x in real:
        if x.k == "fn" or handed(f, x, cs) == path:
            continue
        if x.k == "decl" and all(f.vars[d].t.rstrip().endswith("&") for d, i in x.g("ds") or [] if i == n.id):
            continue
        if x.k in ("delete", "mem") and (x.k == "delete" or any(own_path(f, y, cs) for y in [x])):
            continue
        ch = changes(f, x, cs)
        if ch and ch[1] and ch[0] == path and ch[2].id == n.id and n.id not in [c for c in x.c[1:]]:
            continue
        nt = nulltest(f, x) if x.k == "bin" else None
        if nt and nt[0].id == n.id and n.t.rstrip().endswith("*"):
            continue
        return True
    return False


def mentions(f, n, cs, out):
    """members of the action, and whether something else is involved"""
    n = strip(f, n, True)
    if n.k == "mem":
        m = own_path(f, n, cs)
        if m:
            out.add(m)
            return
    if n.k == "call":
        q = n.g("q") or ""
        fs = [x for x in n.c if x >= 0]
        if n.g("recv") and q.rsplit("::", 1)[-1] in ("size", "empty", "get", "operator->", "operator bool"):
            mentions(f, f.nodes[fs[0]], cs, out)
            return
        out.add("?")
        return
    if n.k == "ref" and f.vars[n.g("d")].kind in ("global", "smember", "static") and "const" in (n.t + " " + (f.vars[n.g("d")].t or "")):
        return
    if n.k in ("ref", "new", "lambda"):
        out.add("?")
        return
    for x in n.c:
        if x >= 0:
            mentions(f, f.nodes[x], cs, out)


def returns(f, b, seen=()):
    """the block leads straight to the end of the function"""
    if b is None or b in seen:
        return False
    if b == f.exit:
        return True
    bl = f.blocks[b]
    if len([s for s in bl.succ if s is not None]) != 1:
        return False
    return any(e >= 0 and f.nodes[e].k == "ret" for e in bl.e) and f.exit in bl.succ


def defaulted(p, fs, path, cs, run, done):
    """every change is `if (member == x) member = constant`, or depends on such a member only"""
    some = False
    for f in fs:
        for b in f.blocks.values():
            for e in b.e:
                if e < 0:
                    continue
                ch = changes(f, f.nodes[e], cs)
                if not ch or ch[0] != path:
                    continue
                some = True
                n = f.nodes[e]
                if n.k != "asg" or n.g("op") != "=" or "v" not in strip(f, f.nodes[n.c[1]]).a and strip(f, f.nodes[n.c[1]]).k not in ("flt", "int", "bool", "enum"):
                    v = set()
                    if n.k != "asg" or n.g("op") != "=":
                        return False
                    mentions(f, f.nodes[n.c[1]], cs, v)
                    if "?" in v or v & set(run):
                        return False
                preds = [x for x in f.blocks.values() if b.id in x.succ]
                if len(preds) != 1 or len(preds[0].succ) != 2 or preds[0].cond is None or preds[0].cond < 0:
                    return False
                m = set()
                mentions(f, f.nodes[preds[0].cond], cs, m)
                if "?" in m or not m or any(x in run and x != path and x not in done for x in m):
                    return False
    return some


def action(ctx, p, c):
    short = c.rsplit("::", 1)[-1]
    cs = set(owners(p, c))
    start, step, end = (methods(p, c, (n,)) for n in ROOTS)
    start = [f for f in start if f.cls in cs]
    fs = closure(p, [f for f in start + step + end if f.cls in cs], cs)
    run = {}
    for f in fs.values():
        for n in f.nodes:
            ch = changes(f, n, cs)
            if ch:
                run.setdefault(ch[0], []).append(n)
    done = set()
    while True:
        more = {m for m in run if m not in done and defaulted(p, fs.values(), m, cs, run, done)}
        if not more:
            break
        done |= more
    k = 0
    for path in sorted(run):
        if path in done or (short, path) in KEEP:
            ctx.count("members that keep a default or are listed")
            continue
        k += 1
        fresh(ctx, p, short, cs, fs, start, step, run, path)
    return k


def atom(f, c, cs, run):
    """(key, value of the key under which the condition is true or None for a truth value) of a condition on settings only"""
    s = strip(f, c, True)
    neg = False
    while s.k == "un" and s.g("op") == "!":
        neg = not neg
        s = strip(f, f.nodes[s.c[0]], True)
    m = set()
    mentions(f, s, cs, m)
    if not m or "?" in m or any(x == y or x.startswith(y + ".") or y.startswith(x + ".") for x in m for y in run):
        return None
    if s.k == "bin" and s.g("op") in ("==", "!="):
        x, y = (strip(f, f.nodes[i], True) for i in s.c[:2])
        if y.k != "enum":
            x, y = y, x
        q = own_path(f, x, cs)
        if y.k == "enum" and q:
            return q, y.g("n"), (s.g("op") == "!=") != neg
    return text(f, s, cs), None, neg


def text(f, n, cs):
    n = strip(f, n, True)
    q = own_path(f, n, cs) if n.k == "mem" else None
    if q:
        return q
    return "(%s %s %s)" % (n.k, ",".join("%s" % n.g(x) for x in ("op", "v", "n", "q") if n.g(x)), " ".join(text(f, f.nodes[x], cs) for x in n.c if x >= 0))


def setting(f, c, cs, run):
    q = own_path(f, strip(f, c, True), cs)
    return q if q and not any(q == y or q.startswith(y + ".") or y.startswith(q + ".") for y in run) else None


def valuations(fs, cs, run):
    keys = {}
    for f in fs.values():
        for b in f.blocks.values():
            if len(b.succ) == 2 and b.cond is not None and b.cond >= 0:
                a = atom(f, f.nodes[b.cond], cs, run)
                if a:
                    keys.setdefault(a[0], set()).add(a[1])
            elif b.tk == "SwitchStmt" and b.cond is not None and b.cond >= 0:
                q = setting(f, f.nodes[b.cond], cs, run)
                for t in b.succ if q else []:
                    for x in (f.blocks[t].case or []) if t is not None else []:
                        keys.setdefault(q, set()).add(strip(f, f.nodes[x]).g("n"))
    dims = [(k, [None, True] if v == {None} else sorted(str(x) for x in v if x) + [""]) for k, v in sorted(keys.items())]
    size = 1
    for _, v in dims:
        size *= len(v)
    while size > 3000 and dims:
        k, v = dims.pop()
        size //= len(v)
    for vs in itertools.product(*[v for _, v in dims]):
        yield dict(zip([k for k, _ in dims], vs))


def edges(p, cs, run, val, known):
    def edge(f, c, taken):
        s = strip(f, c)
        neg = False
        while s.k == "un" and s.g("op") == "!":
            neg = not neg
            s = strip(f, f.nodes[s.c[0]])
        if s.k == "call" and (s.g("q") or "").rsplit("::", 1)[-1].startswith("IsControllerModeOn"):
            return "dead" if taken != neg else None
        if s.k == "call" and s.g("op") == "!=" and any((s.g("q") or "").startswith(x) for x in ("__gnu_cxx::operator!=", "std::operator!=")):
            return None if taken else "entered"
        nt = nulltest(f, c)
        if nt and nt[0].t.rstrip().endswith("*"):
            if taken != nt[1]:
                return "dead"
            return None
        # a start that returns because of the settings
        m = set()
        mentions(f, c, cs, m)
        if f.name == "Start" and m and "?" not in m and not m & set(run):
            b = [x for x in f.blocks.values() if x.cond is not None and x.cond >= 0 and (x.cond == c.id or strip(f, f.nodes[x.cond]).id == s.id)]
            for x in b:
                if len(x.succ) == 2 and returns(f, x.succ[0 if taken else 1]):
                    return "dead"
        a = atom(f, c, cs, run)
        if a and a[0] in val:
            key, v, inv = a
            truth = (val[key] == v if v else bool(val[key])) != inv
            return "dead" if truth != taken else None
        # state left by Start
        if known and s.k == "bin" and s.g("op") in ("==", "!="):
            x, y = (strip(f, f.nodes[i]) for i in s.c[:2])
            q = own_path(f, x, cs)
            if q in known and y.k in ("enum", "int", "bool"):
                truth = ((y.g("v") == known[q]) == (s.g("op") == "==")) != neg
                return "dead" if truth != taken else None
        return None
    return edge


def switches(cs, run, val, known):
    """successor taken by a switch over a member with known value"""
    def case(f, b):
        c = f.nodes[b.cond]
        q = own_path(f, strip(f, c, True), cs)
        if q is None or q not in known and (q not in val or setting(f, c, cs, run) is None):
            return None
        what, v = ("v", known[q]) if q in known else ("n", val[q])
        d = b.succ[-1]
        for s in b.succ:
            if s is None:
                continue
            t = f.blocks[s]
            if any(strip(f, f.nodes[x]).g(what) == v for x in t.case or []):
                return s
            if t.default:
                d = s
        return d
    return case


class Once(Must):
    """Must with loops over elements taken as entered, and switches over known members resolved"""

    def __init__(self, prog, hit, edge, stop, case=None):
        Must.__init__(self, prog, hit, edge, stop)
        self.case = case


def fresh(ctx, p, short, cs, fs, start, step, run, path):
    what = "%s::%s" % (short, path)
    first = None
    if not attempt(p, cs, fs, start, step, run, path, {}):
        ctx.check(True, what, (start or step)[0].loc(), "")
        return
    for val in valuations(fs, cs, run):
        r = attempt(p, cs, fs, start, step, run, path, val)
        if r:
            first = (r, val)
            break
    if not first:
        ctx.check(True, what, (start or step)[0].loc(), "")
        return
    (f, n, text), val = first
    ctx.check(False, what, f.loc(n), text + (" (%s)" % ", ".join("%s=%s" % (k, v or "other") for k, v in val.items() if v) if any(val.values()) else ""))


def attempt(p, cs, fs, start, step, run, path, val):
    def hit(f, n):
        if f.usr not in fs:
            return False
        ch = changes(f, n, cs)
        if handed(f, n, cs) == path:
            return True
        return bool(ch and ch[1] and (path == ch[0] or path.startswith(ch[0] + ".")))

    def analyse(known):
        m = Once(p, hit, edges(p, cs, run, val, known), lambda f: f.usr not in fs, switches(cs, run, val, known))
        memo = {}

        def first(f):
            if f.usr in memo:
                return memo[f.usr]
            memo[f.usr] = []

            def target(g, n):
                if is_read(g, n, path, cs):
                    return True
                if n.k == "call":
                    return any(first(fs[u]) for u in p.targets(n) if u in fs and u != g.usr)
                return False
            memo[f.usr] = m.before(f, target)
            return memo[f.usr]
        return m, first
    m, first = analyse({})
    # not changed at all under these settings
    if not any(changes(f, f.nodes[e], cs) and changes(f, f.nodes[e], cs)[0] == path
               for f in fs.values() for b in live(m, f) for e in b.e if e >= 0):
        return None
    bad = [(f, n) for f in start for n in first(f)]
    if bad:
        return bad[0] + ("start of an execution uses the value left by the previous one",)
    if start and all(m.always(f) for f in start):
        return None
    bad = [(f, n) for f in step for n in first(f)]
    if bad and start:
        known = constants(p, cs, fs, start, run, val)
        known.pop(path, None)
        if known:
            m2, first2 = analyse(known)
            b2 = [(f, n) for f in step for n in first2(f)]
            # whenever the known state is left, the member has been set in the same step
            if not b2 and all(kept(m2, f, cs, fs, known) for f in step):
                return None
    return bad[0] + ("not set on every path of Start, and Step uses the value left by the previous execution",) if bad else None


def live(m, f):
    _, _, lv = m.solve(f)
    return [b for b in f.blocks.values() if b.id in lv]


def constants(p, cs, fs, start, run, val):
    """members that have a known constant when Start is done"""
    res = {}
    for path in run:
        vs = set()
        for f in fs.values():
            if f not in start:
                continue
            for n in f.nodes:
                ch = changes(f, n, cs)
                if ch and ch[0] == path:
                    r = strip(f, f.nodes[n.c[1]]) if n.k == "asg" and n.g("op") == "=" else None
                    vs.add(r.g("v") if r is not None and r.k in ("enum", "int", "bool") else None)
        if len(vs) != 1 or None in vs:
            continue
        m = Once(p, lambda f, n: f in start and bool(changes(f, n, cs)) and changes(f, n, cs)[0] == path, edges(p, cs, run, val, {}), lambda f: True)
        if all(m.always(f) for f in start):
            res[path] = vs.pop()
    return res


def kept(m, f, cs, fs, known):
    inn, gen, lv = m.solve(f)
    for b in f.blocks.values():
        if b.id not in lv:
            continue
        done = inn[b.id]
        for i, e in enumerate(b.e):
            if e < 0:
                continue
            n = f.nodes[e]
            done = done or m.node(f, n)
            ch = changes(f, n, cs)
            if ch and ch[0] in known and not done and not surely(m, f, b, i + 1, gen, lv):
                return False
    return True


def surely(m, f, b, i, gen, lv, seen=None):
    """the event happens on every path from here to the end"""
    seen = seen if seen is not None else set()
    if any(e >= 0 and m.node(f, f.nodes[e]) for e in b.e[i:]):
        return True
    if b.id in seen:
        return True
    seen.add(b.id)
    ss = [s for s in b.succ if s is not None and s in lv]
    return bool(ss) and all(s != f.exit and surely(m, f, f.blocks[s], 0, gen, lv, seen) for s in ss)


def transitions(ctx, p):
    """a transition is reset when an action starts, the reset restores what actions change, and no action changes its settings"""
    reset = p.q(TD + "::Reset")
    ctx.need("reset of a transition", len(reset), 1)
    acts = [c for c in sorted(p.subclasses("scenarioengine::OSCAction")) if c.rsplit("::", 1)[-1] not in BASE]
    used, sets = {}, {}
    for c in acts:
        cs = set(owners(p, c))
        start = [f for f in methods(p, c, ("Start",)) if f.cls in cs]
        fs = closure(p, [f for f in start + methods(p, c, ("Step",)) + methods(p, c, ("End",)) if f.cls in cs], cs)
        calls = [(f, n) for f in fs.values() for n in f.nodes if n.k == "call" and n.g("cls") == TD and n.c and own_path(f, f.nodes[n.c[0]], cs)]
        if not calls:
            continue
        short = c.rsplit("::", 1)[-1]
        for f, n in calls:
            used.setdefault((n.g("q") or "").rsplit("::", 1)[-1], []).append((short, f, n))
        def hit(f, n):
            return n.k == "call" and (n.g("q") or "") == TD + "::Reset"
        def every(name, cs=cs, fs=fs, start=start):
            m = Must(p, lambda f, n: n.k == "call" and (n.g("q") or "") == TD + "::" + name, edges(p, cs, {}, {}, {}), stop=lambda f: f.usr not in fs)
            return bool(start) and all(m.always(f) for f in start)
        sets[short] = every
        m = Must(p, hit, edges(p, cs, {}, {}, {}), stop=lambda f: f.usr not in fs)
        bad = [(f, n) for f in start for n in m.before(f, lambda g, n: n.k == "call" and n.g("cls") == TD and (n.g("q") or "").rsplit("::", 1)[-1] not in ("Reset",))]
        ok = start and all(m.always(f) for f in start) and not bad
        ctx.check(ok, "%s: transition reset at the start of every execution" % short, bad[0][0].loc(bad[0][1]) if bad else (start[0].loc() if start else c), "the transition goes on from where the previous execution left it")
    # the settings of a transition are those read from the scenario
    wr = {name: fields(p, p.q(TD + "::" + name)) for name in used if name != "Reset"}
    done = fields(p, reset, p)
    src = {own_path(f, n, {TD}) for f in closure(p, reset, {TD}).values() for n in f.nodes
           if n.k == "mem" and n.g("cls") == TD and own_path(f, n, {TD}) and is_read(f, n, own_path(f, n, {TD}), {TD})}
    # a setting that an action replaces in every start is not one of the scenario
    for name in wr:
        if wr[name] & src:
            used[name] = [x for x in used[name] if not sets[x[0]](name)]
            if not used[name]:
                wr[name] -= src
    td = {x for v in wr.values() for x in v}
    for x in sorted(td):
        by = sorted(n for n, v in wr.items() if x in v)
        if x == "rate_":        # only its sign is adapted
            continue
        ctx.check(x in done, "transition value %s, changed by %s, restored by the reset" % (x, ", ".join(by)), reset[0].loc(), "the value of an earlier execution is kept")
    # what the reset restores values from is not touched by actions
    for x in sorted(src):
        by = sorted(k for k, v in wr.items() if x in v)
        ctx.check(not by, "transition setting %s, from which the reset restores, not changed by actions" % x, reset[0].loc(), "changed by %s, called by %s" % (", ".join(by), ", ".join(sorted({s[0] for b in by for s in used[b]}))))
    ctx.need("transition values", len(td), 4)


def fields(p, fs, always=None):
    """fields of a transition that the functions change (on every path but the one for rates, with always)"""
    res = set()
    todo = closure(p, fs, {TD})
    for f in todo.values():
        for n in f.nodes:
            ch = changes(f, n, {TD})
            if ch:
                res.add(ch[0])
    if not always:
        return res
    out = set()
    for x in res:
        def edge(f, c, taken):
            s = strip(f, c)
            if s.k == "bin" and s.g("op") in ("==", "!="):
                y = [strip(f, f.nodes[i]) for i in s.c[:2]]
                if any(z.k == "enum" and z.g("n").endswith("::RATE") for z in y):
                    return "dead" if taken == (s.g("op") == "==") else None
            return None
        m = Must(p, lambda f, n: bool(changes(f, n, {TD})) and changes(f, n, {TD})[0] == x and changes(f, n, {TD})[1], edge)
        if all(m.always(f) for f in fs):
            out.add(x)
    return out
