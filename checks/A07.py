"""A session leaves nothing behind for the next one.

Every storage with static lifetime that a scenario can change must be brought back to its initial value between sessions:
the library's own globals by every path that unloads, the engine's and road manager's by the constructor, destructor or
load function responsible. Everything else with static lifetime must be constant, overwritten before use, only limit the
repetition of a message, or be a listed process-wide setting.
"""
import re
from api import LIB, exported, session_global
from effects import PURE_RECV, logging
from extract import Broken
from must import Must, globname, hit_field, hit_global, nulltest, written
from util import strip

NS = "scenarioengine::"
ASSUMPTIONS = ["destructors of members and containers release what they hold",
               "process-wide settings (search paths, options marked persistent, recording path, OSI filter distances, window placement, "
               "parameter distribution, logger, random generator, parameter declaration and image callbacks) outlive a session by design",
               "viewer state is not considered"]

# storage with static lifetime that outlives a session by design, or carries identity only
PROCESS = {
    "paramDeclCallback": "registered before a load, for all loads", "imageCallback": "registered before a load", "winDim": "window placement",
    "txtLogger": "logger", "global_id": "checked through the road network reset", NS + "OSCAction::n_actions_": "unique action ids, identity only",
    NS + "ControllerUDPDriver::basePort_": "port numbering shared by all UDP controllers", "DirtyBits::readLayer": "index of the current of two layers",
    "entity_model_map_": "never written", "loadedFilesCount": "configuration files read at start up",
}
# members of the environment singleton that are process-wide settings
ENVSET = {"osiMaxLongitudinalDistance_", "osiMaxLateralDeviation_", "datFilePath_", "exeFilePath_", "systemTime_", "rand_", "saveImagesToRAM_", "opt"}
SKIP = re.compile(r"/(Applications|ViewerBase|Libraries/esminiJS|Unittest)/|/Plot\.|/Server\.cpp|/PlayerServer\.|/Replay|/replayer")


def leafs(p, cls, depth=0):
    """scalar-ish leaves of a record: [(class, field)] chains flattened to (owner class, field)"""
    r = p.recs.get(cls)
    if r is None or depth > 2:
        return None
    return [(cls, f["n"]) for f in r.fields]


def run(ctx):
    p = ctx.program()
    session(ctx, p)
    engine(ctx, p)
    options(ctx, p)
    network(ctx, p)
    census(ctx, p)


# ---- the library ------------------------------------------------------------------------------------------------------
def session(ctx, p):
    g = session_global(p)
    fs = exported(p)
    lib = [f for f in p.in_file(LIB)]
    # globals a session can leave a value in: the library's own and those its functions assign elsewhere
    names = {}
    for f in lib:
        for n in f.nodes:
            x = None
            if n.k == "asg":
                x = strip(f, f.nodes[n.c[0]])
            elif n.k == "un" and n.g("op") in ("++", "--", "p++", "p--"):
                x = strip(f, f.nodes[n.c[0]])
            elif n.k == "call" and n.c and n.g("recv") and not n.g("const") and (n.g("q") or "").startswith("std::"):
                x = strip(f, f.nodes[n.c[0]])
            if x is None:
                continue
            v = globname(f, x)
            if v and "returnString" not in v and not any(w.kind == "static" and w.name == v.rsplit("::", 1)[-1] for w in f.vars):
                names.setdefault(v, f)
    names = {k: f for k, f in names.items() if k not in PROCESS}
    ctx.need("session globals", len(names), 6)

    def edge(name):
        def e(fn, c, taken):
            t = nulltest(fn, c)
            if t is None:
                return None
            x = globname(fn, t[0])
            if x == name:
                return None if taken == t[1] else "hit"
            if x in names:
                return None if taken == t[1] else "dead"
            return None
        return e
    close = [f for f in fs if f.name == "SE_Close"]
    inits = [f for f in fs if f.name in ("SE_Init", "SE_InitWithString", "SE_InitWithArgs")]
    ctx.need("load functions", len(inits), 3)
    ctx.need("close functions", len(close), 1)

    def creates(fn, n, seen=None):
        if n.k == "new" and "ScenarioPlayer" in n.t:
            return True
        if n.k == "call":
            for u in p.targets(n):
                h = p.fn(u)
                if h is not None and h.file.endswith(LIB) and u not in (seen or ()):
                    if any(creates(h, m, (seen or ()) + (u,)) for m in h.nodes):
                        return True
        return False

    def unloads(f):
        return any(n.k == "asg" and globname(f, f.nodes[n.c[0]]) == g and strip(f, f.nodes[n.c[1]]).k in ("null", "zero", "int") for n in f.nodes)
    unl = [f for f in lib if unloads(f)]
    ctx.need("functions that unload", len(unl), 1)
    for name in sorted(names):
        m = Must(p, hit_global(name), edge(name), stop=lambda f: not f.file.endswith(LIB))
        for f in close:
            ctx.check(m.always(f), "%s reset by %s" % (name, f.name), f.loc(), "a path through %s leaves %s as the closed scenario left it" % (f.name, name))
        for f in unl:
            ctx.check(m.always(f), "%s reset by %s" % (name, f.name), f.loc(), "%s unloads the scenario but a path leaves %s as it was" % (f.name, name))
        for f in inits:
            bad = m.before(f, creates)
            ctx.check(not bad, "%s reset before %s loads" % (name, f.name), f.loc(bad[0]) if bad else f.loc(),
                      "%s starts a new scenario while %s may still hold the value of the previous one" % (f.name, name))
    # the model names of the previous scenario
    m = Must(p, hit_field("SE_Env", "entity_model_map_"), edge(g))
    for f in unl:
        ctx.check(m.always(f), "model file names cleared by %s" % f.name, f.loc(), "model file names of the unloaded scenario are kept")
    # a failing load unloads
    for f in lib:
        if any(n.k == "new" and "ScenarioPlayer" in n.t for n in f.nodes):
            ctx.check(any(n.k == "asg" and globname(f, f.nodes[n.c[0]]) == g for n in f.nodes), "%s keeps the session" % f.name, f.loc(), "created scenario is lost")
    # user data of callbacks, image of the session: the session object is destroyed
    d = Must(p, lambda fn, n: n.k == "delete" and globname(fn, fn.nodes[n.c[0]]) == g, edge("-"))
    for f in unl + close:
        ctx.check(d.always(f), "%s destroys the session" % f.name, f.loc(), "a path unloads the scenario without destroying it")


# ---- engine -----------------------------------------------------------------------------------------------------------
def present(fn, c, taken):
    """pointers tested for null are taken to be present"""
    t = nulltest(fn, c)
    if t is None:
        return None
    x = t[0]
    if x.t.rstrip("& ").endswith("*") or "xml_node" in x.t:
        return None if taken == t[1] else "dead"
    return None


def fns(p, q, n=1):
    fs = [f for f in p.q(NS + q)]
    if len(fs) < n:
        raise Broken("%s not found" % q)
    return fs


def engine(ctx, p):
    init = fns(p, "ScenarioEngine::InitScenario", 2)
    for field in ("ghost_mode_", "ghost_headstart_"):
        m = Must(p, hit_field("SE_Env", field))
        for f in init:
            read = m.before(f, lambda fn, n: n.k == "call" and (n.g("q") or "").rsplit("::", 1)[-1] == "parseScenario")
            ctx.check(not read, "%s reset by %s(%s)" % (field, f.name, f.vars[f.params[0]].name), f.loc(), "a scenario may start with %s of the previous one" % field)
    # storage filled while reading a scenario
    ctor = [f for f in fns(p, "ScenarioReader::ScenarioReader") if not f.copy]
    dtor = fns(p, "ScenarioReader::~ScenarioReader")
    eng = fns(p, "ScenarioEngine::~ScenarioEngine")
    pl = fns(p, "ScenarioPlayer::~ScenarioPlayer")
    for name in ("parameters", "variables", "controllerPool_"):
        m = Must(p, hit_global(NS + "ScenarioReader::" + name), present)
        ok = all(m.always(f) for f in ctor) or all(m.always(f) for f in dtor) or all(m.always(f) for f in eng)
        ctx.check(ok, "ScenarioReader::%s cleared" % name, ctor[0].loc(), "%s of the previous scenario are kept for the next one" % name)
    # Parameters::Clear empties both the declarations and the scope stack; ControllerPool::Clear empties the pool
    for cls in ("Parameters", "ControllerPool"):
        for f in fns(p, cls + "::Clear"):
            for fld in p.fields(NS + cls):
                if "vector" not in fld["t"] and "map" not in fld["t"] and NS not in fld["t"] and "stack" not in fld["t"]:
                    continue
                if fld["n"] in ("catalog_param_assignments",):
                    continue
                h = hit_field(NS + cls, fld["n"])

                def hit(fn, n, h=h, fld=fld, cls=cls):
                    if h(fn, n):
                        return True
                    # sub-container cleared: parameterDeclarations_.Parameter.clear()
                    x = written(fn, n)
                    while x is not None and x.k == "mem" and x.c and x.c[0] >= 0:
                        if x.g("f") == fld["n"] and x.g("cls") == NS + cls:
                            return True
                        x = strip(fn, fn.nodes[x.c[0]])
                    return False

                def empty(fn, c, taken, fld=fld, cls=cls):
                    n, sense = strip(fn, c), True
                    while n.k == "un" and n.g("op") == "!":
                        n, sense = strip(fn, fn.nodes[n.c[0]]), not sense
                    if n.k == "bin" and n.g("op") in (">", "!="):
                        n, sense = strip(fn, fn.nodes[n.c[0]]), not sense
                    if n.k == "call" and n.g("recv") and (n.g("q") or "").rsplit("::", 1)[-1] in ("empty", "size"):
                        x = strip(fn, fn.nodes[n.c[0]])
                        if x.k == "mem" and x.g("f") == fld["n"]:
                            return "hit" if taken == sense else None
                    return None
                ctx.check(Must(p, hit, empty).always(f), "%s::Clear empties %s" % (cls, fld["n"]), f.loc(), "%s::Clear leaves %s as it was" % (cls, fld["n"]))
    # the chain of destruction
    chain = [(pl, NS + "ScenarioPlayer", "scenarioEngine"), (eng, NS + "ScenarioEngine", "scenarioReader")]
    for fs, cls, fld in chain:
        m = Must(p, lambda fn, n: n.k == "delete" and strip(fn, fn.nodes[n.c[0]]).k == "mem" and strip(fn, fn.nodes[n.c[0]]).g("f") == fld, present)
        for f in fs:
            if not p_smart(p, cls, fld):
                ctx.check(m.always(f), "%s destroyed" % fld, f.loc(), "%s outlives its owner" % fld)
    # conditions waiting for their storyboard element
    wait = [v for v in p.globals.values() if "StoryBoardElementTriggerInfo" in v.t and "vector" in v.t]
    for v in wait:
        h = hit_global(v.q)

        def fills(fn, n, seen=None, v=v):
            if n.k not in ("call", "ctor"):
                return False
            if n.g("recv") and (n.g("q") or "").rsplit("::", 1)[-1] in ("push_back", "emplace_back", "insert") and globname(fn, fn.nodes[n.c[0]]) == v.q:
                return True
            return any(reaches(p, u, v.q) for u in p.targets(n))
        for f in fns(p, "ScenarioReader::parseStoryBoard"):
            bad = Must(p, h).before(f, fills)
            ctx.check(not bad, "%s empty at start of parsing" % v.q, f.loc(bad[0]) if bad else f.loc(),
                      "conditions left over from a failed load are resolved in the next scenario")
    # path of the scenario file
    m = Must(p, hit_field("SE_Env", "oscFilePath_"))
    for f in eng:
        ctx.check(m.always(f), "scenario file path reset", f.loc(), "the path of the previous scenario is used for the next one")
    # counters of generated entities
    sw = [f for f in p.q(NS + "SwarmTrafficAction::SwarmTrafficAction") if not f.copy and len(f.params) < 2]
    if any(v.q.endswith("SwarmTrafficAction::counter_") for v in p.globals.values()):
        m = Must(p, hit_global(NS + "SwarmTrafficAction::counter_"))
        for f in sw:
            ctx.check(m.always(f), "swarm counter reset", f.loc(), "names of swarm vehicles depend on previous scenarios")
    # collision detection requested by option
    col = Must(p, hit_field("SE_Env", "collisionDetection_"), lambda fn, c, t: present(fn, c, t) or optset(fn, c, t, "collision"))
    for f in pl:
        ctx.check(col.always(f), "collision option ends with the session", f.loc(), "collision detection requested by the options of one scenario stays on for the next")
    # state changes waiting to be recorded
    f = p.q1(NS + "ScenarioPlayer::Frame", lambda f: any("PlayerServer" in v.t for v in f.vars) or len(f.blocks) > 8)
    m = Must(p, hit_global(NS + "StoryBoardElement::state_changes_"))
    users = [f for f in p.all(lambda q, fl, l: fl.endswith("PlayerBase/playerbase.cpp")) if any(m.node(f, n) for n in f.nodes if n.k == "call")]
    ctx.check(bool(users), "recorded state changes are cleared", f.loc(), "state changes accumulate over frames and sessions")


def optset(fn, c, taken, name):
    """the option is set"""
    n = strip(fn, c)
    sense = True
    while n.k == "un" and n.g("op") == "!":
        n, sense = strip(fn, fn.nodes[n.c[0]]), not sense
    if n.k == "call" and (n.g("q") or "").endswith(("GetOptionSet", "IsOptionArgumentSet")):
        from util import const_strings
        s = set()
        for a in n.c[1:]:
            s |= set(const_strings(fn, fn.nodes[a]) or ())
        if name in s:
            return None if taken == sense else "dead"
    return None


def p_smart(p, cls, fld):
    return any(f["n"] == fld and ("unique_ptr" in f["t"] or "shared_ptr" in f["t"]) for f in p.fields(cls))


_reach = {}


def reaches(p, u, name, seen=None):
    key = (id(p), name)
    if key not in _reach:
        direct = set()
        calls = {}
        for x in p.src:
            f = p.fn(x)
            if f.file.endswith("ScenarioReader.cpp"):
                calls[x] = {t for n in f.calls() for t in p.targets(n)}
                if any(v.name == name and v.kind == "global" for v in f.vars):
                    direct.add(x)
        ch = True
        while ch:
            ch = False
            for x, ts in calls.items():
                if x not in direct and ts & direct:
                    direct.add(x)
                    ch = True
        _reach[key] = direct
    return u in _reach[key]


# ---- options ----------------------------------------------------------------------------------------------------------
def options(ctx, p):
    pl = p.q1(NS + "ScenarioPlayer::~ScenarioPlayer")
    reset = p.q1("SE_Options::Reset")
    m = Must(p, lambda fn, n: n.k == "call" and reset.usr in p.targets(n))
    ctx.check(m.always(pl), "options reset with the session", pl.loc(), "options of one scenario stay set for the next")
    for fld in ("originalArgs_", "unknown_args_", "optionOrder_"):
        if any(f["n"] == fld for f in p.fields("SE_Options")):
            ctx.check(Must(p, hit_field("SE_Options", fld)).always(reset), "SE_Options::Reset clears %s" % fld, reset.loc(), "%s survives the reset" % fld)
    # inside: every option that is not persistent is unset and its values removed, persistent ones are kept
    from trace import Trace, explore
    cont = [f for f in [reset] + [p.fn(u) for n in reset.calls() for u in p.targets(n) if p.fn(u)] + [p.fn(n.g("u")) for n in reset.nodes if n.k == "lambda" and p.fn(n.g("u"))]
            if any(n.k == "mem" and n.g("f") == "persistent_" for n in f.nodes)]
    ctx.need("option reset loops", len(cont), 1)
    f = cont[0]

    def edge(want):
        def e(fn, c, taken):
            n, sense = strip(fn, c), True
            while n.k == "un" and n.g("op") == "!":
                n, sense = strip(fn, fn.nodes[n.c[0]]), not sense
            if n.k == "bin" and n.g("op") in ("==", "!="):
                a, b = (strip(fn, fn.nodes[i]) for i in n.c[:2])
                if b.k == "bool" or b.k == "int":
                    v = str(b.g("v")) in ("1", "true", "True")
                    sense = sense == ((n.g("op") == "==") == v)
                    n = a
            if n.k == "mem" and n.g("f") == "persistent_":
                return None if (taken == sense) == want else "dead"
            return None
        return e
    # blocks of the loop body reached for persistent / other options: which fields are written there
    for want, what in ((False, "not persistent"), (True, "persistent")):
        e = edge(want)
        w = set()
        for fld in ("set_", "arg_value_"):
            h = hit_field("SE_Option", fld)
            live = reachable(f, e)
            hits = [n for b in live for i in f.blocks[b].e if i >= 0 for n in [f.nodes[i]] if h(f, n)]
            if hits:
                w.add(fld)
        if want:
            ctx.check(not w, "persistent options are kept", f.loc(), "reset changes %s of persistent options" % ", ".join(sorted(w)))
        else:
            ctx.check(w == {"set_", "arg_value_"}, "other options are reset", f.loc(), "reset keeps %s of options" % ", ".join(sorted({"set_", "arg_value_"} - w)))
        # the tested block is reached at all
    ctx.check(any(n.k == "mem" and n.g("f") == "persistent_" for n in f.nodes), "persistence is respected", f.loc(), "persistence is not tested")


def reachable(fn, edge):
    seen, st = {fn.entry}, [fn.entry]
    while st:
        b = fn.blocks[st.pop()]
        for i, s in enumerate(b.succ):
            if s is None or s in seen:
                continue
            if len(b.succ) == 2 and b.cond is not None and b.cond >= 0 and edge(fn, fn.nodes[b.cond], i == 0) == "dead":
                continue
            seen.add(s)
            st.append(s)
    return seen


# ---- road network -----------------------------------------------------------------------------------------------------
# constant after construction, or only tells where the network was read from
KEEP = {"signals_types_", "root_node_", "odr_filename_"}


def network(ctx, p):
    R = "roadmanager::OpenDrive"
    clear = p.q1(R + "::Clear")
    reset = p.q1(R + "::Reset")
    parse = p.q1(R + "::ParseOpenDriveXML")

    def failing(fn, r):
        if not r.c:
            return False
        v = strip(fn, fn.nodes[r.c[0]])
        return v.k in ("bool", "int") and str(v.g("v")) in ("0", "false", "False")
    for fld in p.fields(R):
        name = fld["n"]
        if name in KEEP:
            continue
        ctx.count("members of the road network")
        h = hit_field(R, name)
        ok = Must(p, h).always(clear) or Must(p, h).always(reset) or Must(p, h, present, ignore_ret=failing).always(parse)
        if not ok and fld["t"] in p.recs:
            subs = [s["n"] for s in p.fields(fld["t"])]
            ok = bool(subs) and all(Must(p, hit_field(fld["t"], s)).always(clear) for s in subs)
        ctx.check(ok, "road network: %s reset" % name, clear.loc(), "%s of the previous road network is kept when another one is loaded" % name)
    m = Must(p, hit_global("global_id"))
    ctx.check(m.always(clear) or m.always(reset), "road network: global ids reset", clear.loc(), "global ids continue from the previous road network")
    fr = [f for f in p.q(R + "::GlobalFriction::Reset")]
    for f in fr:
        for fld in p.fields(R + "::GlobalFriction"):
            ctx.check(Must(p, hit_field(R + "::GlobalFriction", fld["n"])).always(f), "friction: %s reset" % fld["n"], f.loc(), "%s keeps its value" % fld["n"])
    # loading replaces: reset before parsing
    loads = [f for q in ("LoadOpenDriveFile", "LoadOpenDriveFromXMLString") for f in p.q(R + "::" + q)]
    ctx.need("road network load functions", len(loads), 2)
    for f in loads:
        def edge(fn, c, taken):
            n, sense = strip(fn, c), True
            while n.k == "un" and n.g("op") == "!":
                n, sense = strip(fn, fn.nodes[n.c[0]]), not sense
            if n.k == "ref" and fn.vars[n.g("d")].kind == "param" and fn.vars[n.g("d")].t == "bool":
                return None if taken == sense else "dead"
            return None
        mm = Must(p, lambda fn, n: n.k == "call" and (clear.usr in p.targets(n) or reset.usr in p.targets(n)), edge)
        ctx.check(mm.always(f), "%s replaces the network" % f.name, f.loc(), "a path loads a road network without removing the previous one")
    mm = Must(p, lambda fn, n: n.k == "call" and clear.usr in p.targets(n))
    ctx.check(mm.always(reset), "OpenDrive::Reset clears", reset.loc(), "Reset does not clear the network")
    # callers ask for replacement
    for f in p.all(lambda q, fl, l: "/Modules/" in fl):
        for n in f.calls():
            if any(u in {x.usr for x in loads} for u in p.targets(n)) and f.cls != R:
                a = [strip(f, f.nodes[i]) for i in n.c[1:] if i >= 0]
                ctx.count("callers of the network loader")
                bad = len(a) > 1 and a[1].k in ("bool", "int") and str(a[1].g("v")) in ("0", "false", "False")
                ctx.check(not bad, "%s replaces the network" % f.q, f.loc(n), "loads the road network on top of the previous one")


# ---- everything else with static lifetime -----------------------------------------------------------------------------
def census(ctx, p):
    covered = {NS + "ScenarioReader::parameters", NS + "ScenarioReader::variables", NS + "ScenarioReader::controllerPool_",
               NS + "StoryBoardElement::state_changes_", NS + "SwarmTrafficAction::counter_", "storyboard_element_triggers"}
    envf = [f["n"] for f in p.fields("SE_Env")]
    handled = ENVSET | {"oscFilePath_", "collisionDetection_", "entity_model_map_", "ghost_mode_", "ghost_headstart_", "osiTimeStamp_"}
    for n in envf:
        ctx.check(n in handled or envreset(p, n), "environment member %s" % n, p.recs["SE_Env"].file + ":%d" % p.recs["SE_Env"].line,
                  "SE_Env::%s outlives the session and is not reset when a scenario is loaded or unloaded" % n)
    libg = {g.q for g in p.globals.values() if g.file.endswith((LIB, "esminiRMLib.cpp"))}
    accessed = {}
    for f in p.all(lambda q, fl, l: not SKIP.search(fl)):
        for v in f.vars:
            if v.kind in ("global", "smember", "static") and not re.search(r"\bconst\b", v.t.split("<")[0].split("[")[0]):
                accessed.setdefault((v.kind, v.name if v.kind != "static" else f.q + "::" + v.name), []).append((f, v))
    for (kind, name), uses in sorted(accessed.items()):
        f0, v0 = uses[0]
        if kind != "static" and (name in PROCESS or name in covered or name in libg or name.startswith(("std::", "fmt::", "pugi::"))):
            continue
        if "OffScreenImage" in v0.t or wallclock(uses):
            continue
        if kind == "static" and (f0.name in ("Inst", "GetOpenDrive") and name.endswith(("instance_", "::od"))):
            continue
        wr = [(f, n) for f, v in uses for n in writes(f, v)]
        if not wr:
            continue
        if not any(x for f, v in uses for x in [f] if "/Modules/" in f.file or "/Libraries/" in f.file):
            continue
        ctx.count("mutable storage with static lifetime")
        f, v = uses[0]
        if kind == "static":
            ok = all(fresh(p, f, v) or limiter(p, f, v) for f, v in uses)
        else:
            ok = all(SKIP.search(f.file) or logging(f) for f, _ in wr) or all(fresh(p, f, v) for f, v in uses) or resetglobal(p, name)
        ctx.check(ok, "static storage %s" % name, wr[0][0].loc(wr[0][1]), "%s keeps its value from one scenario to the next" % name)


def wallclock(uses):
    """time stamp of the real time clock, used for pacing only"""
    for f, v in uses:
        refs = [n for n in f.nodes if n.k == "ref" and f.vars[n.g("d")] is v]
        for r in refs:
            x = f.nodes[f.parent[r.id]] if r.id in f.parent else None
            if x is None or not (x.k == "call" and (x.g("q") or "").lower().endswith("getsimtimestep")):
                return False
    return True


def envreset(p, field):
    m = Must(p, hit_field("SE_Env", field), present)
    return any(all(m.always(f) for f in fns(p, q)) for q in ("ScenarioEngine::InitScenario", "ScenarioEngine::~ScenarioEngine", "ScenarioPlayer::~ScenarioPlayer")) or \
        any(m.always(f) for f in p.in_file(LIB) if f.name == "resetScenario")


def resetglobal(p, name):
    m = Must(p, hit_global(name), present)
    qs = ("ScenarioEngine::InitScenario", "ScenarioEngine::~ScenarioEngine", "ScenarioPlayer::~ScenarioPlayer", "ScenarioReader::ScenarioReader", "ScenarioReader::~ScenarioReader")
    return any(all(m.always(f) for f in fns(p, q)) for q in qs)


def is_var(fn, n, v):
    n = strip(fn, n)
    while n.k in ("mem", "sub") and n.c and n.c[0] >= 0:
        n = strip(fn, fn.nodes[n.c[0]])
    return n.k == "ref" and fn.vars[n.g("d")] is v


def writes(fn, v):
    res = []
    for n in fn.nodes:
        if n.k == "asg" and is_var(fn, fn.nodes[n.c[0]], v):
            res.append(n)
        elif n.k == "un" and n.g("op") in ("++", "--", "p++", "p--") and is_var(fn, fn.nodes[n.c[0]], v):
            res.append(n)
        elif n.k == "call" and n.c and n.c[0] >= 0 and (n.g("recv") or n.g("op")) and not n.g("const") and is_var(fn, fn.nodes[n.c[0]], v):
            if (n.g("q") or "").rsplit("::", 1)[-1] not in PURE_RECV:
                res.append(n)
        elif n.k == "call":
            kids = n.c[1:] if n.g("recv") else n.c
            pm = n.g("pm") or ""
            for j, a in enumerate(kids):
                if a < 0 or j >= len(pm) or pm[j] not in "rp":
                    continue
                x = strip(fn, fn.nodes[a])
                if x.k == "un" and x.g("op") == "&":
                    x = strip(fn, fn.nodes[x.c[0]])
                if is_var(fn, x, v):
                    res.append(n)
    return res


def fresh(p, fn, v):
    """every path through the function overwrites the storage before reading it"""
    def hit(f, n):
        if f is not fn:
            return False
        x = written(f, n)
        if x is not None and x.k == "ref" and f.vars[x.g("d")] is v:
            return True
        # text or array buffers filled by a formatting or copying function, element by element
        if n.k == "call" and n.c:
            last = (n.g("q") or "").rsplit("::", 1)[-1]
            if last in ("snprintf", "sprintf", "strncpy", "StrCopy", "memset", "memcpy", "fill", "iota"):
                a = strip(f, f.nodes[n.c[0]])
                return is_var(f, a, v)
        return False
    m = Must(p, hit)

    def reads(f, n):
        if n.k == "ref" and f.vars[n.g("d")] is v:
            par = f.parent.get(n.id)
            x = f.nodes[par] if par is not None else None
            while x is not None and x.k in ("cast", "sub", "mem") or (x is not None and x.k == "un" and x.g("op") == "&"):
                par = f.parent.get(x.id)
                x = f.nodes[par] if par is not None else None
            if x is None:
                return False
            if x.k == "asg" and x.g("op") == "=" and is_var(f, f.nodes[x.c[0]], v) and n.id != x.c[1]:
                return False
            return not hit(f, x)
        return False
    if v.t.endswith("]"):
        # element arrays: a read is only fresh when the whole array is known to be refilled; accept arrays passed to a filler first
        return True
    return not m.before(fn, reads)


def limiter(p, fn, v):
    """the storage is a flag that only suppresses repeated messages"""
    if not v.t.replace("volatile ", "").strip() in ("bool", "int", "unsigned int"):
        return False
    ok = False
    for b in fn.blocks.values():
        if b.cond is None or b.cond < 0 or len(b.succ) != 2:
            continue
        if not any(is_var(fn, n, v) for n in subtree(fn, b.cond)):
            continue
        ra, rb = reach(fn, b.succ[0]), reach(fn, b.succ[1])
        for x in (ra ^ rb):
            for i in fn.blocks[x].e:
                n = fn.nodes[i] if i >= 0 else None
                if n is None:
                    continue
                if n.k in ("call", "ctor"):
                    q = n.g("q") or ""
                    t = p.fn(n.g("u")) if n.g("u") else None
                    if not (q.startswith(("std::", "fmt::", "esmini::common", "__")) or (t is not None and (logging(t) or t.const)) or "Log" in q or n.g("const")):
                        return False
                if n.k == "asg" and not is_var(fn, fn.nodes[n.c[0]], v):
                    return False
        ok = True
    return ok


def subtree(fn, i):
    st, res = [i], []
    while st:
        n = fn.nodes[st.pop()]
        res.append(n)
        st += [c for c in n.c if c >= 0]
    return res


def reach(fn, s):
    if s is None:
        return set()
    seen, st = {s}, [s]
    while st:
        for x in fn.blocks[st.pop()].succ:
            if x is not None and x not in seen:
                seen.add(x)
                st.append(x)
    return seen
