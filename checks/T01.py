"""Transitions follow the dynamics the scenario asks for.

The value, the rate and the range of a transition are derived from the control flow graph as formulas of the parameter,
for each shape and dimension, and compared with the definition of the shapes; what the speed, lane change and lane offset
actions make of a transition (start and target value, range, limits by the performance of the vehicle, end) is tabulated.
"""
import itertools
import math
import algebra as al
from flow import NULL, is_c
from lookup import Tables, ptr, quiet
from trace import loc
from G01 import enumerator as en

ASSUMPTIONS = ["a few values of start, target and range stand for all of them; the parameter of the transition is arbitrary"]
A = "OSCPrivateAction::"
TD = A + "TransitionDynamics::"
BIG, EPS = 1e10, 1e-6
SPANS = ((1.5, 4.0), (4.0, -1.0), (-2.0, 0.5))


def run(ctx):
    r = Tables(ctx, ctx.program(), "scenarioengine::")
    r.sh = {n: en(r.p, A + "DynamicsShape", n) for n in ("LINEAR", "CUBIC", "SINUSOIDAL", "STEP", "SHAPE_UNDEFINED")}
    r.dim = {n: en(r.p, A + "DynamicsDimension", n) for n in ("RATE", "TIME", "DISTANCE")}
    r.limit = 80
    shapes(r)
    steps(r)
    speed(r)
    speeding(r)
    profile(r)
    lanes(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 150)


def sgn(x):
    return -1 if x < 0 else 1


def td(r, st, shape, dim, a, b, c=None, at=None, scale=1.0, rate=None, this="this", f=None):
    """a transition from a to b over the range c; `at` is the parameter (arbitrary if not given)"""
    for k, v in (("shape_", r.sh[shape]), ("dimension_", r.dim[dim]), ("start_val_", a), ("target_val_", b), ("param_target_val_", c), ("scale_factor_", scale),
                 ("param_val_", at), ("rate_", rate), ("param_setting_", c)):
        if v is not None:
            st.env[loc(this + "." + k, f)] = ("c", v)


def value(shape, a, b, c, x="this.param_val_"):
    d = b - a
    return {"STEP": "%r" % b, "LINEAR": "%r+%r*%s/%r" % (a, d, x, c), "SINUSOIDAL": "%r-%r*(cos(%r*%s/%r)-1)/2" % (a, d, math.pi, x, c),
            "CUBIC": "%r+3*%r*(%s/%r)**2-2*%r*(%s/%r)**3" % (a, d, x, c, d, x, c)}[shape]


def slope(shape, a, b, c, x="this.param_val_"):
    c = c or 1.0
    d = b - a
    return {"STEP": BIG * sgn(d), "LINEAR": d / c if c else 0, "SINUSOIDAL": "%r*%r*sin(%r*%s/%r)/(2*%r)" % (math.pi, d, math.pi, x, c, c),
            "CUBIC": "6*%r*%s*(%r-%s)/%r" % (d, x, c, x, c ** 3)}[shape]


def peak(shape, d, c):
    c = c or 1.0
    return {"STEP": BIG * sgn(d), "LINEAR": d / c, "SINUSOIDAL": math.pi * d / (2 * c), "CUBIC": 1.5 * d / c}[shape]


def shapes(r):
    for shape, dim, (a, b), c in itertools.product(("STEP", "LINEAR", "SINUSOIDAL", "CUBIC"), r.dim, SPANS, (3.0, 0.0)):
        if dim == "RATE" and not c:
            continue
        what = "%s transition over %s %s from %s to %s" % (shape, dim, c, a, b)
        eff = shape if c else "STEP"

        def setup(st, f):
            td(r, st, shape, dim, a, b, c, scale=2.0, f=f)
        r.value(what + ", value", TD + "Evaluate", setup, {"$0": r.sh["SHAPE_UNDEFINED"]}, value(eff, a, b, c))
        if shape != "STEP":
            r.value(what + ", value with linear fallback", TD + "Evaluate", setup, {"$0": r.sh["LINEAR"]}, value("LINEAR" if c else "STEP", a, b, c))
        w = slope(eff, a, b, c)
        r.value(what + ", rate", TD + "EvaluatePrim", setup, None, w)
        r.value(what + ", rate of the stretched transition", TD + "EvaluateScaledPrim", setup, None, w / 2 if not isinstance(w, str) else "(%s)/2" % w)
        w = "this.rate_" if dim == "RATE" else peak(eff, b - a, c)
        r.value(what + ", peak rate", TD + "EvaluatePrimPeak", setup, None, w)
        if c:
            k = {"STEP": 0, "LINEAR": b - a, "SINUSOIDAL": math.pi * (b - a) / 2, "CUBIC": 1.5 * (b - a)}[shape]
            for pk in (0.5, -2.0):
                r.value(what + ", range for peak rate %s" % pk, TD + "GetTargetParamValByPrimPeak", setup, {"$0": pk}, k / pk)
            for acc in (0.5, 2.0):
                d = abs(b - a)
                k = {"STEP": 0.0, "LINEAR": None, "SINUSOIDAL": math.pi * math.sqrt(d / (2 * acc)), "CUBIC": math.sqrt(6 * d / acc)}[shape]
                if k is not None:
                    r.value(what + ", range for peak acceleration %s" % acc, TD + "GetTargetParamValByPrimPrimPeak", setup, {"$0": acc}, k)
            for top in (0.1, -0.1, 1000.0) if dim != "RATE" and shape != "STEP" else ():
                pk = abs(peak(eff, b - a, c))
                r.value(what + ", limited to rate %s" % top, TD + "SetMaxRate", setup, {"$0": top}, max(1.0, pk / abs(top)), get=get("scale_factor_"))
                # the limit also holds for the stretched transition: peak rate divided by the factor


def get(m, this="this"):
    return lambda x: x.eng.read(x.st, loc(this + "." + m, x.fn))


def steps(r):
    for at, by, k, end in itertools.product((0.0, 1.0, 2.9), (0.5, 5.0, -0.5, -7.0), (1.0, 2.0), (3.0,)):
        def setup(st, f):
            td(r, st, "CUBIC", "TIME", 1.0, 2.0, end, at=at, scale=k, f=f)
        r.value("step by %s at %s of %s stretched by %s" % (by, at, end, k), TD + "Step", setup, {"$0": by}, min(end, max(0.0, at + by / k)), get=get("param_val_"))
    for shape, (a, b), rate in itertools.product(("LINEAR", "SINUSOIDAL", "CUBIC"), SPANS, (0.5, -0.5)):
        d = b - a
        n = {"LINEAR": 1.0, "SINUSOIDAL": math.pi / 2, "CUBIC": 1.5}[shape] * abs(d) / abs(rate)
        for fn, arg, other in (("SetStartVal", a, ("target_val_", b)), ("SetTargetVal", b, ("start_val_", a)), ("SetParamTargetVal", rate, None), ("SetRate", rate, None)):
            def setup(st, f):
                td(r, st, shape, "RATE", a, b, 77.0, rate=rate if other else 9.0, f=f)
                if fn in ("SetStartVal", "SetTargetVal"):
                    st.env[loc("this." + ("start_val_" if fn == "SetStartVal" else "target_val_"), f)] = ("c", 55.0)
            r.values("%s by rate %s from %s to %s, %s" % (shape, rate, a, b, fn), TD + fn, setup, {"$0": arg}, {
                "range": (get("param_target_val_"), n), "rate": (get("rate_"), abs(rate) * sgn(d)), "start": (get("start_val_"), a), "target": (get("target_val_"), b)})
    for dim in ("TIME", "DISTANCE"):
        def setup(st, f):
            td(r, st, "LINEAR", dim, 1.0, 2.0, 3.0, rate=9.0, f=f)
        r.value("range over %s" % dim, TD + "SetParamTargetVal", setup, {"$0": 4.5}, 4.5, get=get("param_target_val_"))
        r.value("range over %s by start value" % dim, TD + "SetStartVal", setup, {"$0": 4.5}, 3.0, get=get("param_target_val_"))
        r.value("range over %s by target value" % dim, TD + "SetTargetVal", setup, {"$0": 4.5}, 3.0, get=get("param_target_val_"))
        r.value("start value over %s" % dim, TD + "SetStartVal", setup, {"$0": 4.5}, 4.5, get=get("start_val_"))
        r.value("target value over %s" % dim, TD + "SetTargetVal", setup, {"$0": 4.5}, 4.5, get=get("target_val_"))


# ---- what the actions make of it ------------------------------------------------------------------------------------
def limit(x, top):
    return sgn(x) * min(abs(x), abs(top))


def at(shape, a, b, c, x):
    if shape == "STEP" or not c:
        return b
    x /= c
    return {"LINEAR": a + (b - a) * x, "SINUSOIDAL": a - (b - a) * (math.cos(math.pi * x) - 1) / 2, "CUBIC": a + (b - a) * (3 * x ** 2 - 2 * x ** 3)}[shape]


def watcher(target=None, fixed=None):
    """calls of other parts as events, with their arguments"""
    def watch(name, q, recv, vals, n):
        if name == "IsControllerModeOnDomains":
            return "", ("c", 0)
        if name == "GetValue" and target is not None:
            return "", ("c", target)
        if name in ("Start", "End"):
            return name, NULL
        if fixed and name in fixed:
            return "", ("c", fixed[name])
        if name == "SetSpeed":
            return ("speed", vals[0]), NULL
        return quiet(name, q, recv, vals, n)
    return watch


def event(name, i=1):
    def get(r):
        e = [x for x in r.ev if x[0] == name]
        return e[-1][i] if e else None
    return get


def turn(name):
    """angle within one turn"""
    def get(r):
        v = event(name)(r)
        if v is None:
            return None
        k = al.const(al.poly(v)) if al.poly(v) else 0
        return v if k is None else ("c", round(float(k) % (2 * math.pi), 9) % round(2 * math.pi, 9))
    return get


def speed(r):
    for kind, val, want in (("DELTA", 2.0, 8.0), ("DELTA", -9.0, -3.0), ("FACTOR", 1.5, 9.0), ("FACTOR", -0.5, -3.0), ("FACTOR", 0.0, 0.0)):
        def setup(st, f):
            st.env[loc("this.object_", f)] = ptr("O0")
            st.env[loc("O0.speed_")] = ("c", 6.0)
            st.env[loc("this.value_", f)] = ("c", val)
            st.env[loc("this.value_type_", f)] = ("c", en(r.p, "LongSpeedAction::TargetRelative", kind))
        r.value("relative target speed, %s %s" % (kind, val), "LongSpeedAction::TargetRelative::GetValue", setup, None, want)
    r.value("absolute target speed", "LongSpeedAction::TargetAbsolute::GetValue", None, None, "this.value_")
    M = "LongSpeedAction::"
    for shape, dim, (v0, v1), top, (up, down) in itertools.product(("LINEAR", "SINUSOIDAL", "STEP"), r.dim, ((5.0, 9.0), (9.0, 4.0), (6.0, -2.0), (0.0, 8.0), (-3.0, -7.0)), (50.0, 7.0),
                                                                  ((100.0, 100.0), (0.5, 100.0), (100.0, 0.25))):
        n = 3.0
        tgt = limit(v1, top)
        rate = 1.5

        def setup(st, f):
            entity(r, st, f, v0, top, up, down)
            td(r, st, shape, dim, 77.0, 78.0, None if dim == "RATE" else n, rate=rate if dim == "RATE" else None, this="this.transition_", f=f)
        what = "speed action, %s over %s from %s to %s, top speed %s, limits %s" % (shape, dim, v0, v1, top, (up, down))
        if dim == "TIME":
            c = n
        elif dim == "RATE":
            c = {"LINEAR": 1.0, "SINUSOIDAL": math.pi / 2, "STEP": 0.0}[shape] * abs(tgt - v0) / rate
            c = c or EPS
        elif v0 * v1 < 0:
            d0 = v0 ** 2 / (v0 ** 2 + v1 ** 2) * n
            c = 2 * d0 / abs(v0) + 2 * (n - d0) / abs(v1)
        else:
            c = 2 * n / abs(v0 + v1)
        pk = rate if dim == "RATE" else abs(peak(shape, tgt - v0, c))
        k = max(1.0, pk / (up if tgt > v0 else down))
        g = lambda m: get(m, "this.transition_")
        r.values(what, M + "Start", setup, None, {"start value": (g("start_val_"), v0), "target value": (g("target_val_"), tgt), "range": (g("param_target_val_"), c),
                                                 "limited by the performance": (g("scale_factor_"), k), "parameter": (g("param_val_"), 0),
                                                 "initial speed": (event("speed"), at(shape, v0, tgt, c, 0))}, watch=watcher(v1))


def entity(r, st, f, v, top, up, down, this="this"):
    st.env[loc(this + ".object_", f)] = ptr("O0")
    for k, x in (("speed_", v), ("performance_.maxSpeed", top), ("performance_.maxAcceleration", up), ("performance_.maxDeceleration", down)):
        st.env[loc("O0." + k)] = ("c", x)


def speeding(r):
    M = "LongSpeedAction::"
    ABS, REL = (en(r.p, "LongSpeedAction::Target::TargetType", x) for x in ("ABSOLUTE_SPEED", "RELATIVE_SPEED"))
    g = lambda m: get(m, "this.transition_")
    for shape, (v0, v1), x, dt, (up, down), rel, v, k in itertools.product(("LINEAR", "CUBIC"), ((5.0, 9.0), (9.0, 4.0)), (0.0, 1.0, 1.95, 2.0), (0.1, 0.5, 0.0),
                                                                          ((100.0, 100.0), (0.5, 0.25)), ("no", "once", "continuous"), (0.0, 0.3), (1.0, 2.0)):
        c = 2.0
        old = at(shape, v0, v1, c, x) + v
        if (old - v1) * (v1 - v0) > 0 or (dt == 0 and v):
            continue
        goal = v1 + 0.125 if rel != "no" else v1         # the reference vehicle has changed its speed meanwhile
        x2 = min(c, x + dt / k)
        if x > c - EPS:
            new = goal
        else:
            new = at(shape, v0, goal, c, x2)
        acc = (new - old) / dt if dt else 0.0
        held = not -down - EPS <= acc <= up + EPS
        if held or (dt == 0 and x > c - EPS):
            new = old + min(up, max(-down, acc)) * dt
        done = x2 > c - EPS and abs(new - goal) < EPS

        def setup(st, f):
            entity(r, st, f, old, 60.0, up, down)
            td(r, st, shape, "TIME", v0, v1, c, at=x, scale=k, this="this.transition_", f=f)
            st.env[loc("this.target_speed_reached_", f)] = ("c", 0)
            for m in ("this.target_", "this.target_.#ptr"):
                st.env[loc(m, f)] = ptr("G0")
            st.env[loc("G0.type_")] = ("c", ABS if rel == "no" else REL)
            st.env[loc("G0.continuous_")] = ("c", int(rel == "continuous"))
        what = "speed action at %s m/s, %s from %s to %s, relative: %s, at %s of %s, step %s, limits %s, stretched %s" % (old, shape, v0, goal, rel, x, c, dt, (up, down), k)
        wants = {"speed": (event("speed"), new), "end": (lambda r: ("c", int("End" in r.ev)), int(done and rel != "continuous"))}
        if x <= c - EPS:        # a held back change of speed is a shorter way along the curve
            wants["parameter"] = (g("param_val_"), x2 if not held else max(0.0, x2 - (dt - (new - old) / acc) / k))
        r.values(what, M + "Step", setup, {"$1": dt}, wants, watch=watcher(goal))


def profile(r):
    """the speed of a profile is that of the segment the time lies in"""
    SEG = ((1.0, 5.0, 0.0, 2.0), (2.0, 6.0, 2.0, 0.0), (4.0, 10.0, 2.0, -1.0), (6.0, 12.0, 0.0, 0.0))
    for time, dt, cur in ((1.0, 0.5, 0), (1.75, 0.25, 0), (2.0, 0.5, 0), (2.0, 1.5, 1), (3.5, 1.0, 1), (5.0, 0.5, 0), (5.5, 1.0, 2), (5.5, 0.5, 2)):
        t = time + dt
        i = max(j for j in range(4) if SEG[j][0] <= t + EPS)
        d = t - SEG[i][0]
        want = SEG[i][1] + SEG[i][2] * d + 0.5 * SEG[i][3] * d * d

        def setup(st, f):
            entity(r, st, f, 3.0, 60.0, 9.0, 9.0)
            st.env[loc("this.segment_.#size", f)] = ("c", 4)
            st.env[loc("this.entry_.#size", f)] = ("c", 4)
            for j, s in enumerate(SEG):
                for m, x in zip("tvkj", s):
                    st.env[("f", loc("this.segment_[%d]" % j, f), m)] = ("c", x)
            st.env[loc("this.cur_index_", f)] = ("c", cur)
            st.env[loc("this.speed_", f)] = ("c", 3.0)
        r.values("speed profile at %s after segment %d" % (t, cur), "LongSpeedProfileAction::Step", setup, {"$0": time, "$1": dt},
                 {"speed": (event("speed"), want), "end": (lambda r: ("c", int("End" in r.ev)), int(i == 3))}, watch=watcher())


def lanewatch(lane, offset, forward=1, ref=None, rel=False, start=None):
    """position of the entity; once a lane is forced it is the one of the internal position"""
    def watch(name, q, recv, vals, n):
        recv = recv or ""
        mine = "internal_pos_" in recv
        foreign = rel and not mine and "O0" not in recv
        if name == "IsControllerModeOnDomains":
            return "", ("c", 0)
        if name in ("Start", "End"):
            return name, NULL
        if name == "GetAngleInInterval2PI" and is_c(vals[0]):
            return "", ("c", vals[0][1] % (2 * math.pi))
        if name == "IsGhost":
            return "", ("c", 0)
        if name == "IsAngleForward":
            return "", ("c", forward)
        if name == "GetLaneId":
            if ref is not None and foreign:
                return "", ("c", ref)

            def now(eng, st):
                fs = [e for e in st.ev if e[0] == "lane"]
                if start is not None and not mine and not any(e[0] == "SetLanePos" for e in st.ev):
                    return ("c", start)
                return fs[-1][1] if fs and mine else ("c", lane)
            return "", now
        if name == "ForceLaneId":
            return ("lane" if mine else "reflane", vals[0]), NULL
        if name == "GetT":
            return "", ("c", -1.5 if foreign else 2.0)
        if name == "GetOffset":
            return "", ("c", offset[1] if mine else offset[0])
        if name in ("GetTrackId", "GetS", "GetHRelative", "GetX", "GetY", "GetZ"):
            return "", ("init", ("g", ("F0" if foreign else "I0" if mine else "P0") + name))
        if name == "operator=" and mine:
            return "copied", NULL
        if name == "GetRoute":
            return "", NULL
        if name in ("IsInJunction", "GetStatusBitMask"):
            return "", ("c", 0)
        if name in ("SetHeadingRelativeRoadDirection", "SetPitchRelative", "SetRollRelative", "SetLanePos", "MoveAlongS", "SetTrackPos", "XYZ2TrackPos"):
            return (("internal " if mine else "") + name,) + tuple(vals), NULL
        if name == "DistanceToDS":
            return "", ("op", "*", ("c", 2.0), vals[0])         # some factor, to recognise it
        return quiet(name, q, recv, vals, n)
    return watch


def lanes(r):
    M = "LatLaneChangeAction::"
    T = M + "Target::Type"
    ABS, REL = (en(r.p, T, x) for x in ("ABSOLUTE_LANE", "RELATIVE_LANE"))
    for rel, lane, ref, val, fwd, off in itertools.product((0, 1), (-1, 2), (-2, -1, 1, 2), (-2, -1, 1, 3), (0, 1), (0.25, -0.5)):
        if not rel and (ref != -2 or not fwd):
            continue
        tgt = val
        if rel:
            d = val if fwd else -val
            tgt = ref + d
            if tgt == 0 or tgt * ref < 0:
                tgt += sgn(d)

        def setup(st, f):
            entity(r, st, f, 5.0, 60.0, 9.0, 9.0)
            td(r, st, "LINEAR", "TIME", 77.0, 78.0, 3.0, this="this.transition_", f=f)
            for m in ("this.target_", "this.target_.#ptr"):
                st.env[loc(m, f)] = ptr("G0")
            st.env[loc("G0.type_")] = ("c", REL if rel else ABS)
            st.env[loc("G0.value_")] = ("c", val)
            st.env[loc("G0.object_")] = ptr("F0")
            st.env[loc("this.target_lane_offset_", f)] = ("c", off)
        what = "lane change from lane %d to %s%d, offset %s%s" % (lane, "lane %d " % ref if rel else "", val, off, "" if fwd else ", oncoming")
        g = lambda m: get(m, "this.transition_")
        r.values(what, M + "Start", setup, None, {"lane": (event("lane"), tgt), "start": (g("start_val_"), sgn(tgt) * 1.75), "target": (g("target_val_"), sgn(tgt) * off),
                                                 "range": (g("param_target_val_"), 3.0), "parameter": (g("param_val_"), 0)},
                 watch=lanewatch(lane, (0.5, 1.75), fwd, ref, rel))
    for shape, dim, (a, b), x, v, lane, k in itertools.product(("LINEAR", "CUBIC", "STEP"), r.dim, ((3.5, 0.0), (-3.0, 0.5)), (0.0, 1.0, 2.9, 3.0), (20.0, -20.0, 0.5), (-2, 1), (1.0, 2.0)):
        c, dt = 3.0, 0.25
        fwd = 1 if x else -1
        if shape == "STEP" and dim == "RATE":
            continue
        rate = (slope(shape, a, b, c) if shape != "CUBIC" else 6 * (b - a) * x * (c - x) / c ** 3) / k
        run = abs(v) * dt
        if dim == "DISTANCE":
            lng = math.sqrt(run ** 2 / (1 + rate ** 2))
            x2 = min(c, x + lng / k)
            y = at(shape, a, b, c, x2)
        else:
            lat = dt * abs(rate)
            lng = math.sqrt(run ** 2 - min(lat, run) ** 2)
            if lat < run + EPS:
                x2 = min(c, x + dt / k)
                y = at(shape, a, b, c, x2)
            else:
                x2 = min(c, x + run * c / abs(b - a) / k)
                y = at("LINEAR" if shape != "STEP" else shape, a, b, c, x2)
        # heading of the movement in lane direction
        h = math.atan(rate) if dim == "DISTANCE" else math.atan2(sgn(v) * sgn(rate) * lat, lng) if lat < run + EPS else sgn(v) * sgn(rate) * (math.pi / 2 - EPS)
        if shape == "STEP":
            lng = run
        done = x2 > c - EPS or abs(y - b) < EPS or (y - b) * (a - b) < 0

        def setup(st, f):
            entity(r, st, f, v, 60.0, 9.0, 9.0)
            td(r, st, shape, dim, a, b, c, at=x, scale=k, this="this.transition_", f=f)
            st.env[loc("this.heading_agnostic_", f)] = ("c", 0.0)
        what = "lane change at %s m/s, lane %d, %s over %s from %s to %s at %s, stretched %s" % (v, lane, shape, dim, a, b, x, k)
        r.values(what, M + "Step", setup, {"$0": 1.0, "$1": dt}, {
            "offset": (event("SetLanePos", 4), sgn(lane) * y), "lane": (event("SetLanePos", 2), lane), "road": (event("SetLanePos", 1), "I0GetTrackId"), "s": (event("SetLanePos", 3), "I0GetS"),
            "distance": (event("MoveAlongS"), sgn(v) * lng * 2), "parameter": (get("param_val_", "this.transition_"), x2), "end": (lambda r: ("c", int("End" in r.ev)), int(done)),
            "heading": (turn("SetHeadingRelativeRoadDirection"), 0 if done else (fwd * sgn(lane) * h) % (2 * math.pi))},
                 watch=lanewatch(lane, (0.5, 1.75), int(fwd > 0), start=-lane))
    offsets(r)


def offsets(r):
    M = "LatLaneOffsetAction::"
    ABS, REL = (en(r.p, M + "Target::Type", x) for x in ("ABSOLUTE_OFFSET", "RELATIVE_OFFSET"))
    g = lambda m: get(m, "this.transition_")
    for rel, shape, lane, val, acc, fwd in itertools.product((0, 1), ("SINUSOIDAL", "CUBIC", "STEP"), (-1, 2), (1.5, -0.75), (0.5, 2.0), (0, 1)):
        a, b = sgn(lane) * 0.5, sgn(lane) * (val if not rel else -1.5 - (2.0 - 0.5))

        def setup(st, f):
            entity(r, st, f, 5.0, 60.0, 9.0, 9.0)
            td(r, st, shape, "TIME", 77.0, 78.0, 3.0, this="this.transition_", f=f)
            for m in ("this.target_", "this.target_.#ptr"):
                st.env[loc(m, f)] = ptr("G0")
            st.env[loc("G0.type_")] = ("c", REL if rel else ABS)
            st.env[loc("G0.value_")] = ("c", val)
            st.env[loc("G0.object_")] = ptr("F0")
            st.env[loc("this.max_lateral_acc_", f)] = ("c", acc)
        d = abs(b - a)
        c = {"SINUSOIDAL": math.pi * math.sqrt(d / (2 * acc)), "CUBIC": math.sqrt(6 * d / acc), "STEP": 0.0}[shape]
        wants = {"start": (g("start_val_"), a), "target": (g("target_val_"), b), "range": (g("param_target_val_"), c), "parameter": (g("param_val_"), 0)}
        if rel:
            wants.update({"t beside the reference": (event("SetTrackPos", 3), -1.5 + val * (1 if fwd else -1)), "lane of the reference": (event("reflane"), lane)})
        r.values("%s lane offset of %s in lane %d, %s, acceleration %s" % ("relative" if rel else "absolute", val, lane, shape, acc), M + "Start", setup, None, wants, watch=lanewatch(lane, (0.5, 0.5), fwd, rel=rel))
    for shape, (a, b), x, v, lane, k in itertools.product(("LINEAR", "CUBIC", "STEP"), ((0.5, -1.0), (-0.5, 0.25)), (0.0, 1.0, 2.9, 3.0), (20.0, -20.0), (-2, 1), (1.0, 2.0)):
        c, dt = 3.0, 0.25
        y = at(shape, a, b, c, x)
        done = x > c - EPS or abs(y - b) < EPS
        fwd = 1 if x else -1
        h = math.atan((slope(shape, a, b, c) if shape != "CUBIC" else 6 * (b - a) * x * (c - x) / c ** 3) / v)

        def setup(st, f):
            entity(r, st, f, v, 60.0, 9.0, 9.0)
            td(r, st, shape, "TIME", a, b, c, at=x, scale=k, this="this.transition_", f=f)
        what = "lane offset at %s m/s, lane %d, %s from %s to %s at %s, stretched %s" % (v, lane, shape, a, b, x, k)
        r.values(what, M + "Step", setup, {"$0": 1.0, "$1": dt}, {
            "offset": (event("SetLanePos", 4), sgn(lane) * (b if done else y)), "lane": (event("SetLanePos", 2), lane), "road": (event("SetLanePos", 1), "P0GetTrackId"), "s": (event("SetLanePos", 3), "P0GetS"),
            "parameter": (get("param_val_", "this.transition_"), min(c, x + dt / k)), "end": (lambda r: ("c", int("End" in r.ev)), int(done)),
            "heading": (turn("SetHeadingRelativeRoadDirection"), 0 if done else (fwd * sgn(lane) * h) % (2 * math.pi))}, watch=lanewatch(lane, (0.5, 0.5), int(fwd > 0)))
