"""Road coordinates describe the point and the orientation in the world that the road description gives them.

The curves of the road, the conversion from lane to road to world coordinates and the combination of road and relative
orientation are derived from the control flow graph, for tables of coordinates, and compared with the definitions.
"""
import itertools
import math
import algebra as al
from flow import NULL, is_c
from lookup import Tables, deref, ptr, quiet
from trace import Trace, loc
from G01 import enumerator as en

ASSUMPTIONS = ["the values of the tables stand for all values with the same signs and order",
               "clothoids are evaluated correctly by the spiral library; how far a sampled curve is from the exact one is not judged (N01)"]
TURN = 2 * math.pi
UNDEF = 0xffffffff


def run(ctx):
    r = Tables(ctx, ctx.program(), "")
    r.limit = 80
    r.maxd = 60
    angles(r)
    rotations(r)
    r.ns = "roadmanager::"
    curves(r)
    lateral(r)
    orientation(r)
    world(r)
    along(r)
    places(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


def near(g):
    """a constant result as a number"""
    def get(x):
        v = x.ret if g is None else g(x)
        if v is None:
            return None
        q = al.poly(v)
        k = None if q is None else 0 if not q else al.const(q)
        return v if k is None else ("c", float(k))
    return get


def turn(g):
    def get(x):
        v = near(g)(x)
        return ("c", t8(v[1])) if v is not None and is_c(v) else v
    return get


def target(vals, i):
    """storage an argument points or refers to"""
    if vals[i][0] == "&":
        return vals[i][1]
    a = Trace.last[1][i]
    return a[1] if a[0] == "L" else None


def outs_(vals, given):
    return [(target(vals, i), ("c", x)) for i, x in given if target(vals, i) is not None]


def n9(x):
    return float(x)


def t8(x):
    """the angle within a turn"""
    x %= TURN
    return 0.0 if TURN - x < 1e-8 else x


# ---- angles and rotations --------------------------------------------------------------------------------------------
ANGLES = (0.0, 0.5, 2.0, 3.5, 5.0, 6.5, 13.0, -0.5, -2.0, -3.5, -6.5)


def angles(r):
    def half(x):
        x = math.fmod(x, TURN)
        return x + TURN if x < -math.pi else x - TURN if x > math.pi else x
    for a in ANGLES:
        r.value("angle %s within a turn" % a, "GetAngleInInterval2PI", None, {"$0": a}, n9(a % TURN), get=near(None))
        r.value("angle %s around zero" % a, "GetAngleInIntervalMinusPIPlusPI", None, {"$0": a}, n9(half(a)), get=near(None))
        r.value("angle %s is forward" % a, "IsAngleForward", None, {"$0": a}, math.cos(a) >= 0)
    for a, b in itertools.product(ANGLES, (0.0, 3.0, 6.0, -2.5)):
        r.value("angle %s and %s" % (a, b), "GetAngleSum", None, {"$0": a, "$1": b}, n9((a + b) % TURN), get=near(None))
        r.value("angle from %s to %s" % (b, a), "GetAngleDifference", None, {"$0": a, "$1": b}, n9(half(a - b)), get=near(None))
        r.value("angle between %s and %s" % (a, b), "GetAbsAngleDifference", None, {"$0": a, "$1": b}, n9(abs(half(a - b))), get=near(None))
    for x, y in ((3.0, 4.0), (-3.0, 4.0), (-3.0, -4.0), (3.0, -4.0)):
        r.value("direction of (%s, %s)" % (x, y), "GetAngleOfVector", None, {"$0": x, "$1": y}, n9(math.atan2(y, x) % TURN), get=near(None))


def rot(h, p, q):
    cx, cy, cz, sx, sy, sz = math.cos(h), math.cos(p), math.cos(q), math.sin(h), math.sin(p), math.sin(q)
    return [[cx * cy, cx * sy * sz - sx * cz, sx * sz + cx * sy * cz], [sx * cy, cx * cz + sx * sy * sz, sx * sy * cz - cx * sz], [-sy, cy * sz, cy * cz]]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def euler(m):
    return math.atan2(m[1][0], m[0][0]), math.atan2(-m[2][0], math.hypot(m[2][1], m[2][2])), math.atan2(m[2][1], m[2][2])


def app(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


ATT = ((0.3, 0.1, -0.2), (2.5, -0.2, 0.15), (-1.0, 0.0, 0.0))


def rotations(r):
    for a, b in itertools.product(ATT, ATT):
        args = {"$%d" % i: float(x) for i, x in enumerate(a + b)}
        m = mul(rot(*a), rot(*b))
        r.values("orientation %s relative to %s" % (b, a), "R0R12EulerAngles", None, args, {
            n: (turn(deref(6 + i)), t8(euler(m)[i])) for i, n in enumerate(("heading", "pitch", "roll"))})
        ra = rot(*a)
        m = mul([[ra[j][i] for j in range(3)] for i in range(3)], rot(*b))
        r.values("orientation %s seen from %s" % (b, a), "CalcRelAnglesFromRoadAndAbsAngles", None, args, {
            n: (turn(deref(6 + i)), t8(euler(m)[i])) for i, n in enumerate(("heading", "pitch", "roll"))})
    for a in ATT:
        v = (1.5, -2.0, 0.5)
        args = {"$%d" % i: float(x) for i, x in enumerate(a + v)}
        w = app(rot(*a), v)
        r.values("vector turned by %s" % (a,), "RotateVec3d", None, args, {"xyz"[i]: (near(deref(6 + i)), n9(w[i])) for i in range(3)})
        m = rot(*a)
        w = app([[m[j][i] for j in range(3)] for i in range(3)], v)
        r.values("vector turned back by %s" % (a,), "InverseRotateVec3d", None, args, {"xyz"[i]: (near(deref(6 + i)), n9(w[i])) for i in range(3)})
        h = a[0]
        r.values("plane vector turned by %s" % h, "RotateVec2D", None, {"$0": 1.5, "$1": -2.0, "$2": h}, {
            "x": (near(deref(3)), n9(1.5 * math.cos(h) + 2.0 * math.sin(h))), "y": (near(deref(4)), n9(1.5 * math.sin(h) - 2.0 * math.cos(h)))})
        r.values("local to global at %s" % h, "Local2GlobalCoordinates", None, {"$2": 10.0, "$3": 20.0, "$4": h, "$5": 1.5, "$6": -2.0}, {
            "x": (near(deref(0)), n9(10 + 1.5 * math.cos(h) + 2.0 * math.sin(h))), "y": (near(deref(1)), n9(20 + 1.5 * math.sin(h) - 2.0 * math.cos(h)))})


# ---- curves ----------------------------------------------------------------------------------------------------------
def base(st, f, hdg, length=40.0, this="this"):
    for k, v in (("x_", 100.0), ("y_", 200.0), ("hdg_", hdg), ("length_", length), ("s_", 7.0)):
        st.env[loc(this + "." + k, f)] = ("c", v)


def point(x, y, h):
    return {"x": (near(deref(1)), n9(x)), "y": (near(deref(2)), n9(y)), "heading": (turn(deref(3)), t8(h))}


def place(hdg, u, v):
    return 100 + u * math.cos(hdg) - v * math.sin(hdg), 200 + u * math.sin(hdg) + v * math.cos(hdg)


def coef(st, f, m, cs, this="this"):
    for k, x in zip("abcd", cs):
        st.env[loc("%s.%s.%s_" % (this, m, k), f)] = ("c", x)
    st.env[loc("%s.%s.p_scale_" % (this, m), f)] = ("c", 1.0)


def ev(cs, x, d=0):
    a, b, c, e = cs
    return (a + b * x + c * x ** 2 + e * x ** 3, b + 2 * c * x + 3 * e * x ** 2, 2 * c + 6 * e * x)[d]


def curves(r):
    for hdg, ds in itertools.product((0.0, 0.7, -2.5), (0.0, 5.0, 30.0)):
        r.values("line at %s, heading %s" % (ds, hdg), "Line::EvaluateDS", lambda st, f: base(st, f, hdg), {"$0": ds}, point(*place(hdg, ds, 0), hdg))
        for k in (0.02, -0.05, 0.0):
            def arc(st, f):
                base(st, f, hdg)
                st.env[loc("this.curvature_", f)] = ("c", k)
            u, v = (ds, 0) if not k else (math.sin(k * ds) / k, (1 - math.cos(k * ds)) / k)
            r.values("arc of curvature %s at %s, heading %s" % (k, ds, hdg), "Arc::EvaluateDS", arc, {"$0": ds}, point(*place(hdg, u, v), hdg + k * ds))
            r.value("curvature %s of an arc" % k, "Arc::EvaluateCurvatureDS", arc, {"$0": ds}, k)
            r.value("radius of an arc of curvature %s" % k, "Arc::GetRadius", arc, None, abs(1 / k) if k else 1e10)

        def spiral(st, f):
            base(st, f, hdg)
            for m, x in (("clothoid_type_", en(r.p, "Spiral", "CLOTHOID")), ("s0_", 3.0), ("x0_", 2.5), ("y0_", -0.75), ("h0_", 0.4), ("c_dot_", 0.003), ("curv_start_", 0.009), ("curv_end_", 0.129)):
                st.env[loc("this." + m, f)] = ("c", x)

        def lib(name, q, recv, vals, n):
            if name == "odrSpiral":
                return (("spiral", vals[0], vals[1]), NULL, outs_(vals, ((2, 9.0), (3, 1.25), (4, 0.6))))
            return quiet(name, q, recv, vals, n)
        x1, y1 = 9.0 - 2.5, 1.25 + 0.75
        c, s = math.cos(-0.4), math.sin(-0.4)
        w = point(*place(hdg, x1 * c - y1 * s, x1 * s + y1 * c), 0.6 - 0.4 + hdg)
        w["way along the clothoid"] = (lambda x: x.ev[-1][1] if x.ev else None, 3.0 + ds)
        w["change of curvature"] = (lambda x: x.ev[-1][2] if x.ev else None, 0.003)
        r.values("clothoid at %s, heading %s" % (ds, hdg), "Spiral::EvaluateDS", spiral, {"$0": ds}, w, watch=lib)
        r.value("curvature of a clothoid at %s" % ds, "Spiral::EvaluateCurvatureDS", spiral, {"$0": ds}, n9(0.009 + 0.12 * ds / 40), get=near(None))
        CU, CV = (0.5, 0.75, 0.02, -0.001), (0.25, 0.1, 0.03, 0.0004)

        def para(st, f):
            base(st, f, hdg)
            coef(st, f, "poly3U_", CU)
            coef(st, f, "poly3V_", CV)

        def s2p(name, q, recv, vals, n):
            if name == "S2P":
                return (("p", vals[0]), ("c", 0.25 * vals[0][1] if is_c(vals[0]) else 0.0))
            if name == "EvaluateDSLocal":
                return (("u", vals[0]), NULL, outs_(vals, ((1, 4.0), (2, ev(CV, 4.0)))))
            return quiet(name, q, recv, vals, n)
        p = ds / 4
        w = point(*place(hdg, ev(CU, p), ev(CV, p)), hdg + math.atan2(ev(CV, p, 1), ev(CU, p, 1)))
        r.values("parametric curve at %s, heading %s" % (ds, hdg), "ParamPoly3::EvaluateDS", para, {"$0": ds}, w, watch=s2p)
        def kappa(p):
            up, vp = ev(CU, p, 1), ev(CV, p, 1)
            return (up * ev(CV, p, 2) - vp * ev(CU, p, 2)) / (up * up + vp * vp) ** 1.5
        f, rs, _ = r.runs("ParamPoly3::EvaluateCurvatureDS", para, {"$0": ds}, watch=s2p)
        r.ctx.check(bool(rs), "curvature of a parametric curve: returns", f.loc(), "does not return")
        for x in rs:
            v = near(None)(x)
            at_distance = is_c(v) and abs(v[1] - kappa(ds)) < 1e-9 < abs(v[1] - kappa(p))
            r.judge("curvature of a parametric curve" + (" taken at the distance instead of at the parameter" if at_distance else " at %s" % ds), f, v, n9(kappa(p)))

        def poly(st, f):
            base(st, f, hdg)
            coef(st, f, "poly3_", CV)
        r.values("cubic at %s, heading %s" % (ds, hdg), "Poly3::EvaluateDS", poly, {"$0": ds}, point(*place(hdg, 4.0, ev(CV, 4.0)), hdg + math.atan(ev(CV, 4.0, 1))), watch=s2p)


    # what a clothoid is made from
    g = lambda m: near(lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
    KIND = {n: en(r.p, "Spiral", n) for n in ("CLOTHOID", "ARC", "LINE")}

    def start(name, q, recv, vals, n):
        if name == "odrSpiral":
            return (("spiral", vals[0], vals[1]), NULL, outs_(vals, ((2, 9.0), (3, 1.25), (4, 0.6))))
        return quiet(name, q, recv, vals, n)
    for a, b in ((0.0, 0.02), (0.01, 0.05), (0.05, -0.03), (-0.02, -0.02), (0.0, 0.0), (0.03, 0.0)):
        kind = "CLOTHOID" if a != b else "ARC" if a else "LINE"
        w = {"kind": (g("clothoid_type_"), KIND[kind])}
        if a != b:
            w["change of curvature"] = (g("c_dot_"), (b - a) / 40.0)
            if a:
                w["way to the start"] = (g("s0_"), a / ((b - a) / 40.0))
                w["looked up at"] = (lambda x: x.ev[-1][1] if x.ev else None, a / ((b - a) / 40.0))
                w.update({"x": (g("x0_"), 9.0), "y": (g("y0_"), 1.25), "heading": (g("h0_"), 0.6)})
        r.values("clothoid from curvature %s to %s" % (a, b), "Spiral::Spiral", lambda st, f: base(st, f, 0.7), {"$0": 7.0, "$1": 100.0, "$2": 200.0, "$3": 0.7, "$4": 40.0, "$5": a, "$6": b}, w, watch=start, pick=lambda f: len(f.params) == 7)
    for kind, part in (("ARC", "arc_"), ("LINE", "line_")):
        def only(st, f):
            base(st, f, 0.7)
            st.env[loc("this.clothoid_type_", f)] = ("c", KIND[kind])

        def delegate(name, q, recv, vals, n):
            if name == "EvaluateDS":
                return ("part", recv, vals[0]), NULL
            return quiet(name, q, recv, vals, n)
        r.values("clothoid that is one %s" % kind.lower(), "Spiral::EvaluateDS", only, {"$0": 5.0}, {
            "evaluated": (lambda x, part=part: ("c", int(len(x.ev) == 1 and str(x.ev[0][1]).endswith(part))), 1), "at": (lambda x: x.ev[0][2] if x.ev else None, 5.0)}, watch=delegate)


# ---- lanes, road and world -------------------------------------------------------------------------------------------
def stub(values, outs=None):
    """results of the look-ups that other tables (G01, G03) decide; values: name -> value; outs: name -> {argument: value}"""
    def watch(name, q, recv, vals, n):
        if outs and name in outs:
            return (name,) + tuple(vals), ("c", 1), outs_(vals, outs[name].items())
        if name in values:
            v = values[name]
            if callable(v):
                v = v(recv or "", vals)
            if isinstance(v, list):
                return tuple(v)
            return "", ptr(v) if isinstance(v, str) else NULL if v is None else ("c", v)
        return quiet(name, q, recv, vals, n)
    return watch


def lateral(r):
    road = {"GetOpenDrive": "D0", "GetRoadByIdx": "R1", "GetRoadById": "R1", "GetLaneSectionByIdx": "S1", "GetNumberOfLaneSections": 1, "GetLaneOffset": 0.4, "GetLaneOffsetPrim": 0.05,
            "GetCenterOffset": 5.25, "GetOuterOffset": 7.0, "GetTotalLaneWidthPrim": 0.02, "GetNumOfRoads": 1, "GetOffsetBetweenLanes": 3.5, "GetTrackId": 4}
    for lane in (-2, 2):
        def setup(st, f):
            for k, v in (("lane_id_", lane), ("offset_", 0.3), ("s_", 12.0), ("track_idx_", 3), ("lane_section_idx_", 1), ("lane_idx_", 2), ("track_id_", 4)):
                st.env[loc("this." + k, f)] = ("c", v)
        sg = -1 if lane < 0 else 1
        g = lambda m: near(lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
        h = math.atan(sg * 0.02 + 0.05)
        one = dict(road)
        one["GetTotalLaneWidthPrim"] = lambda recv, vals: 0.02 if len(vals) == 3 else sg * 0.02
        r.values("lane coordinates of lane %d" % lane, "Position::Lane2Track", setup, None, {"t": (g("t_"), n9(0.3 + 0.4 + sg * 5.25))}, watch=stub(one))
        r.values("boundary of lane %d" % lane, "Position::LaneBoundary2Track", setup, None, {"t": (g("t_"), n9(0.4 + sg * 7.0))}, watch=stub(one))
        r.value("heading of lane %d" % lane, "Position::GetHOffset", setup, None, n9(h), get=near(None), watch=stub(one), pick=lambda f: not f.params)
        r.values("change of reference to lane %d" % -lane, "Position::ForceLaneId", setup, {"$0": -lane}, {
            "lane": (g("lane_id_"), -lane), "offset": (g("offset_"), n9(0.3 - 3.5)), "t": (g("t_"), n9(0.3 - 3.5 + 0.4 - sg * 5.25))}, watch=stub({**one, "GetTotalLaneWidthPrim": 0.0}))


def orientation(r):
    P = {n: en(r.p, "Position::PosMode", n) for n in ("H_ABS", "H_REL", "P_ABS", "P_REL", "R_ABS", "R_REL", "Z_ABS", "Z_REL", "H_SET")}
    g = lambda m: (lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
    road, rel, ab = (0.5, 0.1, -0.15), (2.0, -0.05, 0.1), (1.25, 0.2, -0.1)

    def setup(st, f):
        for n, x, y, z in zip("hpr", road, rel, ab):
            st.env[loc("this.%s_road_" % n, f)] = ("c", x)
            st.env[loc("this.%s_relative_" % n, f)] = ("c", y)
            st.env[loc("this.%s_" % n, f)] = ("c", z)
        st.env[loc("this.t_", f)] = ("c", 2.0)
        st.env[loc("this.roadSuperElevationPrim_", f)] = ("c", 0.01)
        st.env[loc("this.h_offset_", f)] = ("c", 0.03)
    off = {"GetOpenDrive": "D0", "GetRoadByIdx": "R1", "GetTotalLaneWidthPrim": 0.0, "GetLaneOffsetPrim": math.tan(0.03)}
    for hm, pm, rm in itertools.product(("H_ABS", "H_REL"), ("P_ABS", "P_REL"), ("R_ABS", "R_REL")):
        mode = P[hm] | P[pm] | P[rm]
        first = (road[0], 0.0 if pm == "P_ABS" else road[1], 0.0 if rm == "R_ABS" else road[2])
        second = (ab[0] - road[0] if hm == "H_ABS" else rel[0] + 0.03, ab[1] if pm == "P_ABS" else rel[1] + math.cos(rel[0]) * math.atan(math.tan(0.01) * -2.0), ab[2] if rm == "R_ABS" else rel[2])
        e = euler(mul(rot(*first), rot(*second)))
        m = rot(road[0] + 0.03, road[1], road[2])
        d = euler(mul([[m[j][i] for j in range(3)] for i in range(3)], rot(*e)))
        w = {}
        for i, (n, mo) in enumerate(zip("hpr", (hm, pm, rm))):
            w["absolute " + n] = (turn(g(n + "_")), t8(e[i]))
            w["relative " + n] = (turn(g(n + "_relative_")), t8(d[i] if mo.endswith("ABS") else rel[i]))
        r.values("orientation with %s, %s, %s" % (hm, pm, rm), "Position::EvaluateHPR", setup, {"$0": mode}, w, watch=stub(off), pick=lambda f: len(f.params) == 1)

    def mode(name, q, recv, vals, n):
        if name == "EvaluateHPR":
            return (("hpr",) + tuple(vals), NULL)
        return quiet(name, q, recv, vals, n)
    ev_ = lambda x: x.ev[-1][1] if x.ev and len(x.ev[-1]) > 1 else ("c", -1)
    for fn, mem, m, wrap in (("SetHeading", "h_", "H_ABS", 0), ("SetHeadingRelative", "h_relative_", "H_REL", 1), ("SetPitch", "p_", "P_ABS", 0), ("SetPitchRelative", "p_relative_", "P_REL", 1),
                             ("SetRoll", "r_", "R_ABS", 0), ("SetRollRelative", "r_relative_", "R_REL", 1), ("SetHeadingRoad", "h_road_", None, 1), ("SetPitchRoad", "p_road_", None, 1),
                             ("SetRollRoad", "r_road_", None, 1)):
        for a, e in itertools.product((0.5, -1.0), (0, 1)):
            w = {"angle": (turn(g(mem)), t8(a)), "evaluated": (lambda x: ("c", len(x.ev)), e)}
            if e and m:
                w["mode"] = (ev_, P[m])
            r.values("%s(%s)" % (fn, a), "Position::" + fn, setup, {"$0": a, "$1": e}, w, watch=mode)
    for h, a in itertools.product((0.5, 2.0, 4.0, 5.5), (0.25, -0.25)):
        def head(st, f):
            setup(st, f)
            st.env[loc("this.h_relative_", f)] = ("c", h)
        r.value("heading %s in road direction %s" % (a, h), "Position::SetHeadingRelativeRoadDirection", head, {"$0": a, "$1": 0}, t8(a + (math.pi if math.cos(h) < 0 else 0)), get=turn(g("h_relative_")))

    def height(st, f):
        for k, v in (("z_road_", 3.0), ("z_", 9.0), ("z_relative_", 9.0)):
            st.env[loc("this." + k, f)] = ("c", v)
    r.values("absolute height", "Position::SetZ", height, {"$0": 4.5}, {"z": (g("z_"), 4.5), "relative z": (g("z_relative_"), 1.5)})
    r.values("relative height", "Position::SetZRelative", height, {"$0": 4.5}, {"z": (g("z_"), 7.5), "relative z": (g("z_relative_"), 4.5)})
    # driving direction
    RH, LH = (en(r.p, "Road::RoadRule", n) for n in ("RIGHT_HAND_TRAFFIC", "LEFT_HAND_TRAFFIC"))
    for lane, rule in itertools.product((-1, 2), (RH, LH)):
        back = (lane > 0) == (rule == RH)
        q = {"GetOpenDrive": "D0", "GetRoadById": "R1", "GetRoadByIdx": "R1", "GetTrackId": 4, "GetLaneId": lane, "GetRule": rule, "GetRoadH": 0.75, "GetHRoad": 0.75, "GetPRoad": 0.1, "GetRRoad": 0.2}
        what = "lane %d of a road with %s hand traffic: " % (lane, "right" if rule == RH else "left")
        r.value(what + "direction", "Position::GetDrivingDirectionRelativeRoad", None, None, -1 if back else 1, watch=stub(q))
        r.value(what + "heading", "Position::GetDrivingDirection", None, None, t8(0.75 + (math.pi if back else 0)), get=turn(None), watch=stub(q))
        q["GetDrivingDirectionRelativeRoad"] = -1 if back else 1
        q["GetDrivingDirection"] = 0.75 + (math.pi if back else 0)
        r.value(what + "road heading", "Position::GetHRoadInDrivingDirection", None, None, t8(0.75 + (math.pi if back else 0)), get=turn(None), watch=stub(q))
        r.value(what + "road pitch", "Position::GetPRoadInDrivingDirection", None, None, -0.1 if back else 0.1, get=near(None), watch=stub(q))
        r.value(what + "road roll", "Position::GetRRoadInDrivingDirection", None, None, -0.2 if back else 0.2, get=near(None), watch=stub(q))


def world(r):
    ABS, REL = (en(r.p, "Position::PosMode", n) for n in ("Z_ABS", "Z_REL"))
    g = lambda m: near(lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
    for (h, p, q), t, mode in itertools.product(ATT, (2.0, -3.5), (ABS, REL)):
        m = rot(h, p, q)

        def setup(st, f):
            for k, v in (("track_idx_", 3), ("geometry_idx_", 1), ("s_", 12.0), ("t_", t), ("z_", 9.0), ("z_relative_", 0.25), ("z_centerline_", 99.0), ("track_id_", 4), ("h_road_", 0.77), ("p_road_", 0.66), ("r_road_", 0.55), ("x_", 97.0), ("y_", 96.0), ("z_road_", 95.0),
                         ("h_", 0.31), ("p_", 0.32), ("r_", 0.33), ("h_relative_", 0.21), ("p_relative_", 0.22), ("r_relative_", 0.23)):
                st.env[loc("this." + k, f)] = ("c", v)
            cells = [("i", ("i", loc("this.rot_mat_road_", f), ("c", i)), ("c", j)) for i in range(3) for j in range(3)]
            for c in cells:
                st.env[c] = ("c", 0.5)
            # the orientation of the road is known after this step only
            oriented[2:] = [[(c, ("c", m[i // 3][i % 3])) for i, c in enumerate(cells)] + [(loc("this." + k, f), ("c", v)) for k, v in (("z_centerline_", 4.0), ("h_road_", h), ("p_road_", p), ("r_road_", q))]]
        oriented = ["", ("c", 1), []]
        v = app(m, (0, t, 0.125))
        w = {"x": (g("x_"), n9(50 + v[0])), "y": (g("y_"), n9(60 + v[1])), "height of the road": (g("z_road_"), n9(4 + v[2])), "z": (g("z_"), n9(9.0 if mode == ABS else 4 + v[2] + 0.25)),
             "relative z": (g("z_relative_"), n9(9.0 - 4 - v[2] if mode == ABS else 0.25)), "way along the curve": (lambda x: next((e[1] for e in x.ev if e[0] == "EvaluateDS"), None), 12.0 - 7.0)}
        r.values("point at t %s of a road with orientation %s, height %s" % (t, (h, p, q), "absolute" if mode == ABS else "relative"), "Position::Track2XYZ", setup, {"$0": mode}, w, watch=stub(
            {"GetOpenDrive": "D0", "GetNumOfRoads": 2, "GetRoadByIdx": "R1", "GetGeometry": "G1", "GetS": 7.0, "EvaluateLaneHeight": 0.125, "EvaluateRoadCenterlineZHPR": lambda recv, vals: oriented},
            {"EvaluateDS": {1: 50.0, 2: 60.0, 3: h}}))


def along(r):
    """the geometry that covers s is found from any geometry of the same road, s stays on the road"""
    SEG = ((0.0, 10.0), (10.0, 20.0), (30.0, 5.0))
    END = en(r.p, "Position::PositionStatusMode", "POS_STATUS_END_OF_ROAD")
    g = lambda m: (lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
    for s, at, same, links in itertools.product((-1.0, 0.0, 5.0, 15.0, 31.0, 35.0, 36.0), (0, 1, 2), (1, 0), ((1, 1), (0, 0))):
        if not same and at:
            continue
        was = END if links[0] or s == 5.0 else 0
        q = {"GetOpenDrive": "D0", "GetNumOfRoads": 2, "GetRoadById": "R1", "GetTrackIdxById": 6, "GetLink": lambda recv, vals: ("K1" if links[int(vals[0][1] == en(r.p, "LinkType", "SUCCESSOR"))] else None)}

        def setup(st, f):
            for k, v in (("track_idx_", 6 if same else 2), ("geometry_idx_", at if same else 2), ("track_id_", 4 if same else 9), ("lane_id_", -1), ("status_", was), ("elevation_idx_", 1), ("super_elevation_idx_", 1)):
                st.env[loc("this." + k, f)] = ("c", v)
            st.env[loc("R1.geometry_.#size")] = ("c", 3)
            st.env[loc("R1.length_")] = ("c", 35.0)
            st.env[loc("R1.id_")] = ("c", 4)
            for i, (a, n) in enumerate(SEG):
                st.env[loc("R1.geometry_[%d]" % i)] = ptr("G%d" % i)
                st.env[loc("G%d.s_" % i)] = ("c", a)
                st.env[loc("G%d.length_" % i)] = ("c", n)
        s2 = min(35.0, max(0.0, s))
        end = s > 35 or (s2 < 1e-6 and not links[0]) or (s2 > 35 - 1e-6 and not links[1])
        w = {"s": (g("s_"), s2), "geometry": (g("geometry_idx_"), max([i for i in range(3) if SEG[i][0] <= s2] or [0])), "road": (g("track_id_"), 4), "road index": (g("track_idx_"), 6),
             "end of road": (g("status_"), END if end else 0)}
        if not same:
            w["lane section"] = (g("lane_section_idx_"), 0)
            w["elevation"] = (g("elevation_idx_"), 0)
            w["super elevation"] = (g("super_elevation_idx_"), 0)
        r.values("road position %s from geometry %d%s, links %s" % (s, at, "" if same else " of another road", links), "Position::SetLongitudinalTrackPos", setup, {"$0": 4, "$1": s}, w, watch=stub(q))


def places(r):
    """positions given in one coordinate system are taken as given and the other coordinates follow, in the order in which they depend on each other"""
    P = {n: en(r.p, "Position::PosMode", n) for n in ("H_ABS", "H_REL", "P_ABS", "P_REL", "R_ABS", "R_REL", "Z_ABS", "Z_REL", "H_DEFAULT", "Z_DEFAULT", "P_DEFAULT", "R_DEFAULT")}
    OK, BAD, END = (en(r.p, "Position::ReturnCode", n) for n in ("OK", "ERROR_GENERIC", "ERROR_END_OF_ROAD"))
    raw = lambda m: (lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
    g = lambda m: near(raw(m))
    names = lambda x: [e[0] for e in x.ev if isinstance(e, tuple)]

    def seen(*ms):
        """what the members are when the step is taken"""
        def up(eng, st):
            return [(loc("this.#" + m, FN[0]), eng.read(st, loc("this." + m, FN[0]))) for m in ms]
        return up
    FN = [None]

    def steps(code=OK, extra=None):
        def watch(name, q, recv, vals, n):
            if name == "SetLongitudinalTrackPos":
                return (name,) + tuple(vals), ("c", code)
            if name == "Track2XYZ" or name == "EvaluateRoadCenterlineZHPR":
                return (name,) + tuple(vals), ("c", OK), seen("t_", "lane_id_", "offset_", "lane_idx_", "lane_section_idx_")
            if name == "Track2Lane":
                return (name,), NULL, seen("t_")
            if name == "Lane2Track":
                return (name,), NULL, seen("lane_id_", "offset_", "lane_section_idx_")
            if name == "EvaluateHPR":
                return (name,) + tuple(vals), NULL, seen("h_", "p_", "r_", "h_relative_", "p_relative_", "r_relative_", "h_road_", "p_road_", "r_road_")
            if extra and name in extra:
                v = extra[name]
                v = v(recv or "", vals) if callable(v) else v
                return v if isinstance(v, tuple) else ("", ptr(v) if isinstance(v, str) else NULL if v is None else ("c", v))
            return quiet(name, q, recv, vals, n)
        return watch

    def order(want):
        return lambda x: ("c", int(names(x) == list(want)))

    def arg(name, i):
        return lambda x: next((e[i] for e in x.ev if isinstance(e, tuple) and e[0] == name), None)

    def pre(**kw):
        def setup(st, f):
            FN[0] = f
            for k, v in kw.items():
                st.env[loc("this." + k, f)] = ("c", v)
        return setup
    # road coordinates
    for code, xy in itertools.product((OK, END, BAD), (1, 0)):
        last = "Track2XYZ" if xy else "EvaluateRoadCenterlineZHPR"
        w = {"result": (None, code)}
        if code == BAD:
            w["steps"] = (order(["SetLongitudinalTrackPos"]), 1)
        else:
            w.update({"steps": (order(["SetLongitudinalTrackPos", "Track2Lane", last]), 1), "t": (g("t_"), -2.5), "t when the lane is looked up": (g("#t_"), -2.5), "road": (arg("SetLongitudinalTrackPos", 1), 4),
                      "s": (arg("SetLongitudinalTrackPos", 2), 12.5), "mode": (arg(last, 1), P["Z_REL"])})
        r.values("road position, code %d, world coordinates %d" % (code, xy), "Position::SetTrackPosMode", pre(t_=1.0), {"$0": 4, "$1": 12.5, "$2": -2.5, "$3": P["Z_REL"], "$4": xy}, w, watch=steps(code))
    # lane coordinates
    for code, lane, sec, there in itertools.product((OK, END, BAD), (-2, 1), (UNDEF, 3), (1, 0)):
        fresh = sec != UNDEF or lane != -2
        if not there and not fresh:
            continue

        def info(recv, vals):
            return "", ("c", OK), outs_(vals, ())

        def lanes(name, q, recv, vals, n):
            if name == "GetLaneInfoByS":
                li = target(vals, 3)
                return ("info",) + tuple(vals[:3]), ("c", OK), [] if li is None else [(("f", li, "lane_section_idx_"), ("c", 2)), (("f", li, "lane_id_"), ("c", -2))]
            if name == "GetLaneById":
                return "", ptr("L1") if there and is_c(vals[0]) and vals[0][1] == lane else NULL
            if name == "GetLaneIdxById":
                return "", ("c", 7) if vals[0] == ("c", lane) else ("c", 8)
            if name == "GetLaneSectionByIdx":
                return "", ptr("S1") if is_c(vals[0]) and vals[0][1] in (2, 3, 5) else NULL
            return steps(code, {"GetOpenDrive": "D0", "GetRoadById": "R1", "GetLaneSectionIdxByS": lambda recv, vals: ("", ("c", 5 if vals[0] == ("c", 12.5) else 6))})(name, q, recv, vals, n)
        w = {"result": (None, BAD if not there else code)}
        if code == BAD:
            w["steps"] = (order(["SetLongitudinalTrackPos"]), 1)
            w["lane"], w["offset"] = (g("lane_id_"), lane), (g("offset_"), 0.75)
        elif there:
            w.update({"steps": (lambda x: ("c", int([n for n in names(x) if n != "info"] == ["SetLongitudinalTrackPos", "Lane2Track", "Track2XYZ"])), 1), "road": (arg("SetLongitudinalTrackPos", 1), 4),
                      "s": (arg("SetLongitudinalTrackPos", 2), 12.5), "mode": (arg("Track2XYZ", 1), P["Z_REL"])})
            for k in ("", "#"):
                w.update({k + "lane": (g(k + "lane_id_"), lane), k + "offset": (g(k + "offset_"), 0.75), k + "section": (g(k + "lane_section_idx_"), sec if sec != UNDEF else 5 if fresh else 2)})
            w["lane index"] = (g("#lane_idx_"), 7)
        else:
            w["steps"] = (lambda x: ("c", int("Track2XYZ" in names(x))), 0)
        r.values("lane position, code %d, lane %d, section %s, lane exists %d" % (code, lane, "unknown" if sec == UNDEF else sec, there), "Position::SetLanePosMode",
                 pre(lane_id_=-2, offset_=0.0, lane_section_idx_=1, lane_idx_=0, s_=12.5), {"$0": 4, "$1": lane, "$2": 12.5, "$3": 0.75, "$4": P["Z_REL"], "$5": sec}, w, watch=lanes)
    # orientation of the road
    h, p, q = 0.5, 0.1, -0.15
    m = rot(h, p, q)

    def centre(name, qn, recv, vals, n):
        if name == "GetZAndPitchByS":
            return (name, vals[0]), ("c", 1), outs_(vals, ((1, 4.0), (2, 0.01), (3, 0.02), (4, p)))
        if name == "UpdateRollByS":
            return (name, vals[0]), ("c", 1), outs_(vals, ((1, 0.03), (2, q)))
        return steps(OK, {"GetOpenDrive": "D0", "GetRoadById": "R1", "GetRoadByIdx": "R1", "GetRoadH": h})(name, qn, recv, vals, n)
    w = {"height": (g("z_centerline_"), 4.0), "slope": (g("z_roadPrim_"), 0.01), "mode": (arg("EvaluateHPR", 1), P["H_REL"]), "elevation at": (arg("GetZAndPitchByS", 1), 12.5), "roll at": (arg("UpdateRollByS", 1), 12.5),
         "last step": (lambda x: ("c", int(names(x)[-1:] == ["EvaluateHPR"])), 1)}
    for k in ("", "#"):
        w.update({k + "heading": (g(k + "h_road_"), h), k + "pitch": (g(k + "p_road_"), p), k + "roll": (g(k + "r_road_"), q)})
    for i, j in itertools.product(range(3), range(3)):
        w["matrix %d %d" % (i, j)] = (near(lambda x, i=i, j=j: x.eng.read(x.st, ("i", ("i", loc("this.rot_mat_road_", x.fn), ("c", i)), ("c", j)))), m[i][j])
    def zero(st, f):
        pre(s_=12.5, track_id_=4, track_idx_=6)(st, f)
        for i, j in itertools.product(range(3), range(3)):
            st.env[("i", ("i", loc("this.rot_mat_road_", f), ("c", i)), ("c", j))] = ("c", 0.0)
    r.values("orientation of the road", "Position::EvaluateRoadCenterlineZHPR", zero, {"$0": P["H_REL"]}, w, watch=centre)
    # world coordinates
    kinds = (("ABS",) * 4, ("REL",) * 4, ("ABS", "REL", "ABS", "REL"), ("REL", "ABS", "REL", "ABS"), ("DEFAULT",) * 4)
    for (zk, hk, pk, rk), upd, given in itertools.product(kinds, (1, 0), ("xyzhpr", "", "xhr", "yzp")):
        val = dict(zip("xyzhpr", (1.5, 2.5, 3.5, 0.5, 0.25, 0.125)))
        a = {"$%d" % i: (val[k] if k in given else math.nan) for i, k in enumerate("xyzhpr")}
        mode = P["Z_" + zk] | P["H_" + hk] | P["P_" + pk] | P["R_" + rk]
        a.update({"$6": mode, "$7": upd})

        def xyz(name, q, recv, vals, n):
            if name == "XYZ2TrackPos":
                return (name,) + tuple(vals), ("c", 0)
            return steps()(name, q, recv, vals, n)
        old = {"x_": 10.0, "y_": 20.0, "z_": 30.0, "z_relative_": 31.0, "z_road_": 5.0, "h_": 4.0, "p_": 4.25, "r_": 4.5, "h_relative_": 5.0, "p_relative_": 5.25, "r_relative_": 5.5}
        x, y = (val[k] if k in given else old[k + "_"] for k in "xy")
        z = val["z"] if "z" in given else old["z_" if zk == "ABS" else "z_relative_"]
        w = {}
        if upd:
            w.update({"x": (arg("XYZ2TrackPos", 1), x), "y": (arg("XYZ2TrackPos", 2), y), "z": (arg("XYZ2TrackPos", 3), z), "mode": (arg("XYZ2TrackPos", 4), mode), "steps": (order(["XYZ2TrackPos", "EvaluateHPR"]), 1)})
        else:
            w.update({"x": (g("x_"), x), "y": (g("y_"), y), "steps": (order(["EvaluateHPR"]), 1)})
            if zk != "DEFAULT":
                w["z"] = (g("z_" if zk == "ABS" else "z_relative_"), z)
        full = P["Z_ABS" if zk == "DEFAULT" else "Z_" + zk]
        for k, kind in zip("hpr", (hk, pk, rk)):
            rel = kind == "REL"
            full |= P[k.upper() + ("_REL" if rel else "_ABS")]
            for mem, mine in ((k + "_", not rel), (k + "_relative_", rel)):
                w[mem] = (turn(raw("#" + mem)), t8(val[k] if mine and k in given else old[mem]))
        w["mode of the orientation"] = (arg("EvaluateHPR", 1), full)
        r.values("world position, %s given, z %s, h %s, p %s, r %s, road position %d" % (given or "nothing", zk, hk, pk, rk, upd), "Position::SetInertiaPosMode", pre(**old), a, w, watch=xyz,
                 pick=lambda f: len(f.params) == 8)
