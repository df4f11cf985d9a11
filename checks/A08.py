"""Commands of a host application act on exactly the named object, with the given values.

Actions injected through the library or over UDP, objects added at run time, sensors and per object settings: every
command is derived from the control flow graph for tables of arguments, and what it creates or changes is compared with
what the caller asked for.
"""
import itertools
from flow import is_c
from lookup import Tables, ptr, quiet
from trace import loc
from G01 import enumerator as en
from G02 import near, n9

ASSUMPTIONS = ["the values of the tables stand for all values", "an unknown shape or dimension of a transition is logged, what is then used is not judged"]
IDS = (0, 3, 7)


def run(ctx):
    r = Tables(ctx, ctx.program(), "scenarioengine::")
    r.limit = 80
    layouts(r)
    injected(r)
    added(r)
    ongoing(r)
    finished(r)
    server(r)
    r.ns = ""
    forwarded(r)
    settings(r)
    sensors(r)
    objects(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


def world(*extra):
    """objects with the ids IDS exist"""
    def watch(name, q, recv, vals, n):
        for e in extra:
            v = e(name, q, recv, vals, n)
            if v is not None:
                return v
        if name == "GetObjectById" and vals and is_c(vals[0]):
            i = int(vals[0][1])
            return "", ptr("O%d" % i) if i in IDS else ("c", 0)
        return quiet(name, q, recv, vals, n)
    return watch


def layouts(r):
    """the library reinterprets the structs of its callers: same members, in the same order, of the same types"""
    for n in ("SpeedActionStruct", "LaneChangeActionStruct", "LaneOffsetActionStruct"):
        a, b = (next((x for k, x in r.p.recs.items() if k.rsplit("::", 1)[-1] == m and x.fields), None) for m in ("SE_" + n, n))
        if a is None or b is None:
            r.ctx.count("undetermined results")
            continue
        fa, fb = ([(x["n"], x["t"]) for x in y.fields] for y in (a, b))
        r.ctx.count("cases analysed")
        r.ctx.check(fa == fb, "members of SE_%s" % n, "SE_" + n, "%s, but %s is %s" % (fa, n, fb))


ACT = {"InjectSpeedAction": ("speed", {"speed": 12.5}), "InjectLaneChangeAction": ("target", {"mode": 0, "target": -2}), "InjectLaneOffsetAction": ("offset", {"offset": 1.25, "maxLateralAcc": 0.75})}
SHAPE = ("CUBIC", "LINEAR", "SINUSOIDAL", "STEP")
DIM = ("DISTANCE", "RATE", "TIME")


def injected(r):
    shapes = [en(r.p, "DynamicsShape", s) for s in SHAPE]
    dims = [en(r.p, "DynamicsDimension", d) for d in DIM]

    def add(name, q, recv, vals, n):
        if name == "AddAction":
            return ("add", vals[0]), ("c", 0)

    def made(x):
        return x.ev[0][1] if len(x.ev) == 1 and x.ev[0][0] == "add" else None

    def mem(path):
        def get(x):
            v = made(x)
            if v is None:
                return None
            for p in path:
                l = ("d", v) if v[0] != "&" else v[1]
                for m in p.split("."):
                    l = ("f", l, m)
                v = x.eng.read(x.st, l)
            return v
        return get
    for fn, (goal, fixed) in sorted(ACT.items()):
        cases = itertools.product(IDS, range(4), range(3) if fn != "InjectLaneOffsetAction" else (None,), (0, 1) if "mode" in fixed else (None,))
        for i, s, d, mode in cases:
            f = dict(fixed, id=i, transition_shape=s)
            if d is not None:
                f.update(transition_dim=d, transition_value=3.5)
            if mode is not None:
                f["mode"] = mode
            cons = {"$0." + k: v for k, v in f.items()}
            w = {"one action": (lambda x: ("c", int(made(x) is not None)), 1), "object": (mem(["object_"]), "@O%d" % i), "shape": (mem(["transition_.shape_"]), shapes[s]),
                 "executions": (mem(["max_num_executions_"]), 1)}
            if d is not None:
                w["dimension"] = (mem(["transition_.dimension_"]), dims[d])
                w["transition value"] = (near(mem(["transition_.rate_" if DIM[d] == "RATE" else "transition_.param_target_val_"])), 3.5)
            tp = ["target_.#ptr"] if mode is None else ["target_"]
            w["target"] = (near(mem(tp + ["value_"])), n9(f[goal]))
            if mode is not None:
                w["kind of target"] = (lambda x, mode=mode: ("c", int(("Absolute" in str(mem(["target_"])(x))) == (mode == 0))), 1)
            if mode == 1:
                w["object of target"] = (mem(tp + ["object_"]), "@O%d" % i)
            if "maxLateralAcc" in f:
                w["lateral acceleration"] = (near(mem(["max_lateral_acc_"])), 0.75)
            r.values("%s for %d, shape %s%s%s" % (fn, i, SHAPE[s], "" if d is None else ", " + DIM[d], "" if mode is None else ", mode %d" % mode), "PlayerServer::" + fn, None, cons, w, watch=world(add))
        f = dict(fixed, id=5, transition_shape=1, transition_dim=1, transition_value=3.5)
        if fn == "InjectLaneOffsetAction":
            del f["transition_dim"], f["transition_value"]
        r.values("%s for an unknown object" % fn, "PlayerServer::" + fn, None, {"$0." + k: v for k, v in f.items()}, {"no action": (lambda x: ("c", len(x.ev)), 0)}, watch=world(add))


def actions(st, f, n):
    st.env[loc("this.action_.#size", f)] = ("c", n)
    for i in range(n):
        st.env[loc("this.action_[%d]" % i, f)] = ptr("A%d" % i)


def entry(k):
    return lambda x: x.eng.read(x.st, loc("this.action_[%d]" % k, x.fn))


def number(x):
    return x.eng.read(x.st, loc("this.action_.#size", x.fn))


def ended(name, q, recv, vals, n):
    if name == "End":
        return ("end", recv), ("c", 0)


def added(r):
    """an action replaces one of the same type for the same object, and no other"""
    private, glob = (en(r.p, "BaseType", x) for x in ("PRIVATE", "GLOBAL"))
    kinds = list(itertools.product((1, 2), ("O0", "O3")))

    def base(name, q, recv, vals, n):
        if name == "GetBaseType":
            return "", ("c", private)
    for n in (0, 1, 2):
        for have in itertools.product(kinds, repeat=n):
            for new in kinds:
                def setup(st, f):
                    actions(st, f, n)
                    for i, (t, o) in enumerate(have + (new,)):
                        a = "A%d" % i if i < n else "N0"
                        st.env[loc(a + ".action_type_")] = ("c", t)
                        st.env[loc(a + ".object_")] = ptr(o)
                    p = f.params[0]
                    st.env[("v", 0, p, f.vars[p].name)] = ptr("N0")
                gone = ["A%d" % i for i in range(n) if have[i] == new]
                w = {"number": (number, n + 1), "last": (entry(n), "@N0"), "replaced": (lambda x, gone=gone: ("c", int([k[1] for k in x.ev] == gone)), 1)}
                for i in range(n):
                    w["entry %d" % i] = (entry(i), "@A%d" % i)
                r.values("action %s added to %s" % (new, list(have)), "PlayerServer::AddAction", setup, None, w, watch=world(ended, base))


def ongoing(r):
    for n in (0, 1, 2, 3):
        for have in itertools.product((1, 2), repeat=n):
            def setup(st, f):
                actions(st, f, n)
                for i, t in enumerate(have):
                    st.env[loc("A%d.action_type_" % i)] = ("c", t)
            for t in (-1, 0, 1, 2):
                r.values("type %d ongoing of %s" % (t, list(have)), "PlayerServer::InjectedActionOngoing", setup, {"$0": t}, {"answer": (lambda x: x.ret, n > 0 if t < 0 else t in have), "number": (number, n)})


def finished(r):
    done, running = en(r.p, "StoryBoardElement::State", "COMPLETE"), en(r.p, "StoryBoardElement::State", "RUNNING")
    for n in (0, 1, 2, 3):
        for states in itertools.product((0, 1), repeat=n):
            def state(name, q, recv, vals, nd):
                if name == "GetCurrentState" and recv and recv[0] == "A":
                    return "", ("c", done if states[int(recv[1:])] else running)
            left = [i for i in range(n) if not states[i]]
            w = {"number": (number, len(left))}
            for k, i in enumerate(left):
                w["entry %d" % k] = (entry(k), "@A%d" % i)
            r.values("finished %s" % (states,), "PlayerServer::Step", lambda st, f: actions(st, f, n), None, w, watch=world(state))


def server(r):
    """a message over UDP is the command it names"""
    playing, pause, step = (en(r.p, "PlayerState", "PLAYER_STATE_" + x) for x in ("PLAYING", "PAUSE", "STEP"))
    stop = en(r.p, "", "SERV_STOP")
    what = {"SPEED_ACTION": [("InjectSpeedAction", "speed")], "LANE_CHANGE_ACTION": [("InjectLaneChangeAction", "laneChange")], "LANE_OFFSET_ACTION": [("InjectLaneOffsetAction", "laneOffset")],
            "PLAY": [("SetState", playing)], "PAUSE": [("SetState", pause)], "STEP": [("SetState", step), ("Frame", 1)], "STEP_DT": [("SetState", step), ("Frame", 0.125, 1)],
            "QUIT": [("SetQuitRequest", 1)], "UNDEFINED": [], "NR_OF_ACTIONS": []}
    for k, want in what.items():
        code = en(r.p, "UDP_ACTION_TYPE", k)

        def link(name, q, recv, vals, n):
            if name == "Receive" and vals and vals[0][0] == "&":
                b = vals[0][1]
                return "", ("c", 40), [(("f", b, "action_type"), ("c", code)), (("f", ("f", ("f", b, "message"), "stepDT"), "dt"), ("c", 0.125)), (("g", "state"), ("c", stop))]
            if name == "GetStatus":
                return "", ("c", 0)
            if name.startswith("Inject") or name in ("SetState", "Frame", "SetQuitRequest"):
                return (name,) + tuple(vals), ("c", 0)

        def got(x):
            return [(e[0],) + tuple(float(v[1]) if is_c(v) else v[2] if v[0] == "." else v[1][2] if v[0] == "&" and v[1][0] == "f" else v for v in e[1:]) for e in x.ev]

        def same(x, want=want):
            g = got(x)
            if any(isinstance(v, tuple) for e in g for v in e):
                return ("top", 0, 0)
            return ("c", int(g == want))

        def setup(st, f):
            p = f.params[0]
            st.env[("v", 0, p, f.vars[p].name)] = ptr("P0")
            st.env[loc("P0.player_server_.#ptr")] = ptr("Q0")
        r.values("message %s" % k, "ServerThread", setup, None, {"commands": (same, 1)}, watch=world(link), never=("UDPServer",), pick=lambda f: any(v.t.endswith("ActionStruct") for v in (f.vars.values() if isinstance(f.vars, dict) else f.vars)))


def lib(st, f=None):
    st.env[("g", "player")] = ptr("P0")
    st.env[loc("P0.scenarioEngine")] = ptr("S0")
    st.env[loc("P0.scenarioEngine.#ptr")] = ptr("S0")
    st.env[loc("P0.player_server_.#ptr")] = ptr("Q0")


def forwarded(r):
    def call(name, q, recv, vals, n):
        if name.startswith("Inject"):
            return (name, recv) + tuple(vals), ("c", 1)
    for fn in sorted(ACT):
        def setup(st, f):
            lib(st)
            p = f.params[0]
            st.env[("v", 0, p, f.vars[p].name)] = ptr("X0")
        r.values("SE_" + fn, "SE_" + fn, setup, None, {"forwarded": (lambda x, fn=fn: ("c", int(len(x.ev) == 1 and x.ev[0][:2] == (fn, "Q0") and "X0" in str(x.ev[0][2]))), 1)}, watch=world(call))


def settings(r):
    """per object settings reach the object with that id, and no other"""
    for i in IDS + (5,):
        for v in (0, 1):
            def setup(st, f):
                lib(st)
                for k in IDS:
                    st.env[loc("O%d.pos_.lockOnLane_" % k)] = ("c", 1 - v)
                    st.env[loc("O%d.pos_.snapToLaneTypes_" % k)] = ("c", 77)
            w = {"lock of %d" % k: (lambda x, k=k: x.eng.read(x.st, loc("O%d.pos_.lockOnLane_" % k)), v if k == i else 1 - v) for k in IDS}
            w["result"] = (lambda x: x.ret, 0 if i in IDS else -1)
            r.values("lock %d on lane: %d" % (i, v), "SE_SetLockOnLane", setup, {"$0": i, "$1": v}, w, watch=world())
            w = {"types of %d" % k: (lambda x, k=k: x.eng.read(x.st, loc("O%d.pos_.snapToLaneTypes_" % k)), 6 if k == i else 77) for k in IDS}
            w["result"] = (lambda x: x.ret, 0 if i in IDS else -1)
            r.values("lane types of %d" % i, "SE_SetSnapLaneTypes", setup, {"$0": i, "$1": 6}, w, watch=world())

        def mode(name, q, recv, vals, n):
            if name in ("SetMode", "SetModeDefault"):
                return (name, recv) + tuple(vals), ("c", 0)
        for fn, args in (("SetMode", {"$1": 2, "$2": 5}), ("SetModeDefault", {"$1": 2})):
            want = [(fn, "O%d.pos_" % i) + tuple(args.values())] if i in IDS else []

            def got(x):
                return [(e[0], e[1]) + tuple(int(v[1]) if is_c(v) else v for v in e[2:]) for e in x.ev]
            name = "SE_SetObjectPositionMode" + ("Default" if "Default" in fn else "")
            r.values("%s of %d" % (name, i), name, lambda st, f: lib(st), dict(args, **{"$0": i}), {"call": (lambda x, want=want: ("c", int(got(x) == want)), 1)}, watch=world(mode))


def sensors(r):
    args = {"$%d" % (k + 1): v for k, v in enumerate((2.0, 0.5, 0.4, 1.5, 2.5, 30.0, 1.2))}

    def add(name, q, recv, vals, n):
        if name == "AddObjectSensor":
            return (name, recv) + tuple(vals), ("c", 4)
    for i in IDS + (5,):
        w = {"result": (lambda x: x.ret, 4 if i in IDS else -1), "calls": (lambda x: ("c", len(x.ev)), int(i in IDS))}
        if i in IDS:
            w["object"] = (lambda x: x.ev[0][2], "@O%d" % i)
            for k, v in enumerate((2.0, 0.5, 0.4, 1.5, 2.5, 30.0, 1.2, 8)):
                w["argument %d" % k] = (near(lambda x, k=k: x.ev[0][3 + k]), n9(v))
        r.values("sensor of %d" % i, "SE_AddObjectSensor", lambda st, f: lib(st), dict(args, **{"$0": i, "$8": 8}), w, watch=world(add))


def objects(r):
    """an object added at run time has the given kind, category, role, size and model"""
    vehicle, ped, misc = (en(r.p, "Object::Type", x) for x in ("VEHICLE", "PEDESTRIAN", "MISC_OBJECT"))
    box = {"center_.x_": 1.5, "center_.y_": 0.25, "center_.z_": 0.75, "dimensions_.width_": 1.75, "dimensions_.length_": 4.5, "dimensions_.height_": 1.25}

    def parts(name, q, recv, vals, n):
        if name == "addObject":
            return (name, recv, vals[0], vals[1]), ("c", 11)
        if name in ("SetModel3DFullPath", "AssignController", "AddController"):
            return (name, recv) + tuple(vals), ("c", 0)
        if name == "InstantiateControllerExternal":
            return "", ptr("C0")
        if name == "Activate":
            return (name, recv), ("c", 0)

    def mem(m):
        def get(x):
            a = [e for e in x.ev if e[0] == "addObject"]
            if len(a) != 1 or a[0][2][0] not in ("new", "obj"):
                return None
            l = ("d", a[0][2])
            for k in m.split("."):
                l = ("f", l, k)
            return x.eng.read(x.st, l)
        return get
    for t, (cat, role), scale in itertools.product((vehicle, ped, misc), ((0, 0), (3, 2)), (0, 2)):
        args = {"$1": t, "$2": cat, "$3": role, "$4": -1, "$5": 0, "$7": scale}

        def setup(st, f):
            lib(st)
            p = f.params[6]
            for k, v in box.items():
                l = ("v", 0, p, f.vars[p].name)
                for m in k.split("."):
                    l = ("f", l, m)
                st.env[l] = ("c", v)
        kind = {vehicle: "Vehicle", ped: "Pedestrian", misc: "MiscObject"}[t]
        w = {"boundingbox_." + k: (near(mem("boundingbox_." + k)), v) for k, v in box.items()}
        w.update({"category": (mem("category_"), cat), "role": (mem("role_"), role), "scaling": (mem("scaleMode_"), scale), "kind": (lambda x, kind=kind: ("c", int(any(e[0] == "addObject" and e[2][0] in ("new", "obj") and kind in str(e[2]) for e in x.ev))), 1)})
        w["controlled"] = (lambda x: ("c", int(any(e[0] == "AssignController" for e in x.ev) and any(e[0] == "Activate" for e in x.ev))), int(t != misc))
        r.values("new %s, category %d, role %d, scaling %d" % (kind, cat, role, scale), "SE_AddObjectWithBoundingBox", setup, args, w, watch=world(parts), inline=3)
