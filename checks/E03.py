"""Copies are complete: a copied action, trajectory, position or vehicle has all settings of its original.

The settings of a class are the members that code outside the class assigns (directly, through setters or by reference) -
computed from the program. For every such member, every path of the copy operation must end with the member of the copy
holding the value, or a copy of the value, of the same member of the original.
"""
import algebra as al
from extract import Broken
from trace import THIS, Trace, explore
from flow import NULL, is_c
from util import strip

ASSUMPTIONS = ["assignment operators of members copy the member completely (checked separately for positions)",
               "members that only the class itself changes are running state, not settings"]
ACTION = "scenarioengine::OSCPrivateAction"
SHAPE = "roadmanager::Shape"
LOOK = ("find", "count", "size", "empty", "length", "c_str", "cbegin", "cend", "rbegin", "rend")
STEP = ("operator[]", "at", "back", "front", "operator->", "operator*", "get", "begin", "end", "data")
# members of a position that are results of evaluating the others, or handed over separately
DERIVED = {"route_": "CopyRoute", "trajectory_": "owned by the action", "osi_x_": "result", "osi_y_": "result", "osi_z_": "result", "rot_mat_": "result", "rot_mat_road_": "result",
           "super_elevation_idx_": "search hint", "overlapping_roads": "result"}


def chain(g, n):
    """members named in an lvalue, outermost last"""
    res = []
    while True:
        n = strip(g, n)
        if n.k == "mem":
            res.append(n)
            if not n.c or n.c[0] < 0:
                break
            n = g.nodes[n.c[0]]
        elif n.k in ("sub", "un") and n.c:
            n = g.nodes[n.c[0]]
        elif n.k == "call" and (n.g("q") or "").rsplit("::", 1)[-1] in STEP and n.c:
            n = g.nodes[n.c[0]]
        else:
            break
    return res


def writes(g):
    for n in g.nodes:
        ts = []
        if n.k == "asg" or (n.k == "un" and n.g("op") in ("++", "--", "p++", "p--")):
            ts.append(g.nodes[n.c[0]])
        elif n.k in ("call", "ctor"):
            kids = list(n.c)
            if n.g("recv"):
                if not n.g("const") and kids[0] >= 0 and (n.g("q") or "").rsplit("::", 1)[-1] not in STEP + LOOK:
                    ts.append(g.nodes[kids[0]])
                kids = kids[1:]
            pm = n.g("pm") or ""
            for j, i in enumerate(kids):
                if i >= 0 and j < len(pm) and pm[j] == "r":
                    ts.append(g.nodes[i])
        for t in ts:
            ms = chain(g, t)
            for k, m in enumerate(ms):
                # the sub-path below the member of the class
                yield m.g("cls"), ".".join([m.g("f")] + [x.g("f") for x in reversed(ms[:k])]), n


def settings(p, classes):
    """class -> {member path: an example of a function that sets it}"""
    cfg, own = {}, {}
    for g in p.all():
        for c, f, n in writes(g):
            if c not in classes:
                continue
            if g.cls == c or (g.cls in classes and c in p.bases(g.cls)):
                own.setdefault((c, g.name), set()).add(f.split(".")[0])
            else:
                cfg.setdefault(c, {}).setdefault(f, g)
    for g in p.in_file("ScenarioReader.cpp"):
        for n in g.nodes:
            if n.k == "call" and n.g("recv") and not n.g("const"):
                c, _, m = (n.g("q") or "").rpartition("::")
                for f in own.get((c, m), ()):
                    cfg.setdefault(c, {}).setdefault(f, g)
    return cfg, own


class CT(Trace):
    limit = 8

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        if "ogger" in q:
            return [(st, NULL)]
        r = al.path(recv) if recv is not None else ""
        if name == "operator=" and recv is not None and len(args) == 1:
            v = al.path(args[0][1]) if args[0][0] == "L" else al.poly_str(args[0][1])
            st.ev = st.ev + ("%s := %s" % (r, v),)
            eng.write(st, recv, eng.aval(st, args[0]))
            return [(st, ("&", recv))]
        if name in ("push_back", "emplace_back", "AddVertex", "AddSegment", "AddControlPoint", "AddKnots", "insert", "assign"):
            st.ev = st.ev + ("%s += %s" % (r + ("." + name if name.startswith("Add") else ""), " ; ".join(al.poly_str(eng.aval(st, a)) if a[0] != "L" else al.path(a[1]) for a in args)),)
            return [(st, NULL)]
        if name in ("memcpy", "copy", "copy_n") and len(args) >= 2:
            st.ev = st.ev + ("%s := %s" % tuple(al.poly_str(eng.aval(st, a)) for a in ((args[0], args[1]) if name == "memcpy" else (args[-1], args[0]))),)
            return [(st, NULL)]
        if name in ("CalculatePolyLine", "SetName"):
            st.ev = st.ev + ("%s %s" % (name, " ".join(al.poly_str(eng.aval(st, a)) for a in args)),)
            return [(st, NULL)]
        if name in ("Copy", "make_shared", "make_unique"):
            return [(st, ("init", ("g", "copy of " + (r or " ".join(al.path(a[1]) if a[0] == "L" else al.poly_str(a[1]) for a in args)))))]
        return super().call(eng, st, n, q, recv, args)

    def write(self, eng, st, n, l, val):
        if "[" in al.path(l):
            st.ev = st.ev + ("%s := %s" % (al.path(l), al.poly_str(val)),)


def text(eng, st, v):
    """value with the constructor arguments of new objects"""
    return al.poly_str(v)


def news(f):
    """constructor arguments of the objects created in a function: the members of the source mentioned in them"""
    res = {}
    for n in f.nodes:
        if n.k == "new":
            ms = []
            work = list(n.c)
            while work:
                i = work.pop()
                if i < 0:
                    continue
                x = f.nodes[i]
                if x.k == "mem":
                    ms.append(x.g("f"))
                work += list(x.c)
            res[n.id] = ms
    return res


def covers(r, f, dst, src, field, nw):
    """does the copy's member hold the original's on this path? -> (ok, what it holds)"""
    l = dst
    s = src
    for x in field.split("."):
        l = ("f", l, x)
        s = ("f", s, x)
    want = al.path(s)
    v = r.eng.read(r.st, l)
    got = al.poly_str(v)
    here = al.path(l)
    if v == ("init", s) or got == want or want in got:
        return True, got
    for e in r.ev:
        a, op, b = e.partition(" := ")
        if op and b.split("[")[0].startswith(want) and (a == here or a.startswith(here + "[") or a == got):
            return True, got
        a, op, b = e.partition(" += ")
        if op and want in b and (a == here or a.startswith(here)):
            return True, got
        if op and a.startswith(al.path(dst) + ".Add") and want in b:
            return True, got
    if v[0] == "new" and field.split(".")[-1] in nw.get(v[3], ()):
        return True, got
    if v == NULL and r.truth(("init", s)) is False:
        return True, got
    return False, got


def run(ctx):
    p = ctx.program()
    actions = sorted(p.subclasses(ACTION))
    shapes = sorted(p.subclasses(SHAPE))
    cfg, own = settings(p, set(actions) | set(shapes) | {SHAPE, "roadmanager::RMTrajectory"})
    n = 0
    for c in actions:
        fs = [f for f in p.q(c + "::Copy")]
        cname = c.rsplit("::", 1)[-1]
        ctx.check(bool(fs), "copy of " + cname, "OSCPrivateAction.hpp", "%s cannot be copied: the operation inherited returns nothing" % cname)
        if not fs:
            continue
        f = fs[0]
        made = [x for x in f.nodes if x.k == "ctor" and (x.g("q") or "").rsplit("::", 1)[0] == c]
        if not made:
            ctx.check(False, "copy of " + cname, f.loc(), "no %s is created" % cname)
            continue
        fields = dict(cfg.get(c, {}))
        for u in {x.g("u") for x in made}:
            if u not in p.src:
                ctx.check(made[0].g("copy") or not fields, "copy of " + cname, f.loc(), "the copy is created without its settings")
                n += 1
                ctx.count("settings", len(fields))
                continue
            g = p.fn(u)
            if not g.params:
                member_copy(ctx, p, f, c, fields, own)
                n += 1
                continue
            n += 1
            src = ("d", ("init", ("v", 0, g.params[0], g.vars[g.params[0]].name)))
            judge(ctx, p, g, cname, THIS, src, fields)
            rs = explore(p, g, CT(lambda *a: None))
            ctx.check(all(any(e.startswith("SetName") and "name_" in e for e in r.ev) for r in rs), "name of copied " + cname, g.loc(), "the copy has no name")
    ctx.need("actions that can be copied", n, 17)
    for c in shapes + ["roadmanager::RMTrajectory"]:
        f = p.q1(c + "::Copy")
        fields = dict(cfg.get(c, {}))
        for k, v in cfg.get(SHAPE, {}).items() if c in shapes else ():
            if k.split(".")[0] in ("following_mode_", "initial_speed_"):
                fields.setdefault(k, v)
        member_copy(ctx, p, f, c, fields, own)
    position(ctx, p)
    vehicle(ctx, p)
    ghost(ctx, p)


def judge(ctx, p, g, cname, dst, src, fields):
    nw = news(g)
    rs = explore(p, g, CT(lambda *a: None))
    ctx.check(bool(rs), "copy of " + cname, g.loc(), "copying does not end")
    for k, w in sorted(fields.items()):
        ctx.count("settings")
        oks = [covers(r, g, dst, src, k, nw) for r in rs]
        bad = [t for ok, t in oks if not ok]
        if "." in k:
            # alternatives: the part in use is copied
            ctx.check(len(bad) < len(oks) or covers_all(rs, g, dst, src, k.split(".")[0], nw), "%s of copied %s" % (k, cname), g.loc(), "set in %s, in the copy it is %s" % (w.name, bad[0] if bad else ""))
        else:
            ctx.check(not bad or part_by_part(k, fields) or all_kinds(p, g, rs, dst, src, k, nw), "%s of copied %s" % (k, cname), g.loc(), "set in %s, in the copy it is %s" % (w.name, bad[0] if bad else ""))


def all_kinds(p, g, rs, dst, src, k, nw):
    """a new object of the same kind is made, for all kinds there are"""
    made = set()
    for r in rs:
        v = r.eng.read(r.st, ("f", dst, k))
        if v[0] == "new" and covers(r, g, dst, src, k, nw)[0]:
            made |= {x.g("q").rsplit("::", 1)[0] for i in g.nodes[v[3]].c if i >= 0 for x in [g.nodes[i]] if x.k == "ctor"}
    bases = {b for m in made for b in p.bases(m)}
    return bool(made) and all(set(p.subclasses(b)) <= made for b in bases) and bool(bases)


def part_by_part(k, fields):
    return any(x.startswith(k + ".") for x in fields)


def covers_all(rs, g, dst, src, k, nw):
    return all(covers(r, g, dst, src, k, nw)[0] for r in rs)


def member_copy(ctx, p, f, c, fields, own):
    """Copy() that fills in a fresh object"""
    cname = c.rsplit("::", 1)[-1]
    nw = news(f)
    rs = [r for r in explore(p, f, CT(lambda *a: None)) if r.ret is not None and r.ret[0] in ("new", "obj")]
    ctx.check(bool(rs), "copy of " + cname, f.loc(), "no copy is returned")
    made = [ms for i, ms in nw.items()]
    for k, w in sorted(fields.items()):
        ctx.count("settings")
        bad = []
        oks = 0
        for r in rs:
            ok, t = covers(r, f, ("d", r.ret), THIS, k, nw)
            if not ok and any(k.split(".")[0] in ms for ms in made):
                ok = True                       # handed to the constructor
            if not ok:
                # filled in by the operation that fills it in the original, for each of its elements
                d = al.path(("d", r.ret))
                ok = any(e.startswith(d + "." + m + " += ") for e in r.ev for (cc, m), fs in own.items() if cc == c and k in fs)
            if not ok and "." in k:
                ok = any(e.startswith(d + "." + k.split(".")[0] + " += ") for e in r.ev) and any(k.split(".")[-1] in ms for ms in made)
            oks += ok
            if not ok:
                bad.append(t)
        # the elements are copied one by one: nothing to copy on the path on which there are none
        loop = any("+=" in e for r in rs for e in r.ev)
        ctx.check(oks if loop else not bad, "%s of copied %s" % (k, cname), f.loc(), "set in %s, in the copy it is %s" % (w.name, bad[0] if bad else ""))


def position(ctx, p):
    c = "roadmanager::Position"
    f = p.q1(c + "::Duplicate")
    src = ("d", ("init", ("v", 0, f.params[0], f.vars[f.params[0]].name)))
    t = CT(lambda *a: None)
    rs = [r for r in explore(p, f, t) if any(not r.unchanged("this." + x["n"]) for x in p.fields(c))]
    ctx.check(bool(rs), "copied position", f.loc(), "nothing is copied")
    nw = news(f)
    k = 0
    for x in p.fields(c):
        if x["n"] in DERIVED:
            continue
        k += 1
        for r in rs:
            ok, got = covers(r, f, THIS, src, x["n"], nw)
            ctx.check(ok, "%s of copied position" % x["n"], f.loc(), "in the copy it is %s" % got)
    ctx.need("members of a position", k, 50)
    for g in p.q(c + "::Position") + p.q(c + "::operator="):
        if len(g.params) == 1 and "Position" in g.vars[g.params[0]].t:
            ok = any(n.k == "call" and (n.g("q") or "") == c + "::Duplicate" for n in g.nodes)
            ctx.check(ok, "%s of positions" % g.name, g.loc(), "does not copy all of the position")
    g = p.q1(c + "::CopyRoute")
    par = g.vars[g.params[0]].name

    def watch(name, q, r, v, n):
        if name == "CopyTo":
            return "copied %s" % r, None
        return None
    got = 0
    for r in explore(p, g, CT(watch)):
        v = al.poly_str(r.value("this.route_"))
        if any(par + ".route_" in e for e in r.ev) or par + ".route_" in v:
            got += 1
    ctx.check(got or any(par in str(x) for x in ()), "route of copied position", g.loc(), "the route is not taken over")


def vehicle(ctx, p):
    c = "scenarioengine::Vehicle"
    gs = [g for g in p.q(c + "::Vehicle") if g.params and "Vehicle" in g.vars[g.params[0]].t]
    if not gs:
        ctx.check(True, "copied vehicle", "Entities.hpp", "")
        return
    g = gs[0]
    src = ("d", ("init", ("v", 0, g.params[0], g.vars[g.params[0]].name)))
    rs = explore(p, g, CT(lambda *a: None))
    whole = all(any(e == "this := %s" % al.path(src) or e.startswith("this := " + g.vars[g.params[0]].name) for e in r.ev) for r in rs)
    asg = [h for h in p.q(c + "::operator=")]
    ctx.check(whole or not rs, "copied vehicle", g.loc(), "the members of the vehicle are not all copied")
    ctx.check(all(len(h.blocks) <= 3 for h in asg), "assignment of vehicles", g.loc(), "the assignment operator is not the one the compiler supplies")


def ghost(ctx, p):
    """the ghost gets a copy of every init action of its original"""
    f = p.q1("scenarioengine::ScenarioEngine::SetupGhost")

    def hit(n):
        return n.k == "call" and n.g("virt") and (n.g("q") or "").endswith("Action::Copy")
    cs = [n for n in f.nodes if hit(n)]
    ctx.check(bool(cs), "init actions of a ghost", f.loc(), "the init actions are not copied")
