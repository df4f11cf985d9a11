"""The simple vehicle follows its controls within its limits.

One step of every way to control the vehicle and of its motion is derived from the control flow graph for tables of
states, limits and controls, and compared with the model: speed, wheel angle, heading and position.
"""
import itertools
import math
from flow import is_c
from lookup import Tables, ptr, quiet
from trace import loc
from G02 import near, turn, t8, n9

ASSUMPTIONS = ["the values of the tables stand for all values with the same signs and order relative to the limits",
               "wheel geometry constants of the model (15 % of the length, 60 degrees) are those of the documentation in the code"]
MAXW = math.pi / 3


def clamp(x, a, b):
    return min(max(x, a), b)


def run(ctx):
    r = Tables(ctx, ctx.program(), "vehicle::")
    r.limit = 80
    controls(r)
    motion(r)
    r.ns = ""
    library(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


def g(m):
    return near(lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))


def state(**kw):
    base = dict(posX_=10.0, posY_=20.0, heading_=1.0, length_=4.0, speed_=8.0, wheelAngle_=0.1, wheelRotation_=2.0, max_speed_=12.0, max_acc_=5.0, max_dec_=7.0, steering_rate_=3.0,
                steering_return_factor_=2.0, steering_scale_=0.01, engine_brake_factor_=0.125, handbrake_=0, throttle_disabled_=0, steering_disabled_=0)
    base.update(kw)

    def setup(st, f):
        for k, v in base.items():
            st.env[loc("this." + k, f)] = ("c", v)
    return base, setup


def step(name, q, recv, vals, n):
    """the motion that follows has its own table"""
    if name == "Update":
        return ("update",) + tuple(vals), ("c", 0)
    return quiet(name, q, recv, vals, n)


def moved(x):
    return ("c", int(len(x.ev) == 1 and x.ev[0][0] == "update" and is_c(x.ev[0][1]) and abs(x.ev[0][1][1] - 0.25) < 1e-12))


def driven(b, u, dt, drag):
    """speed and hand brake after throttle u"""
    v, hb = b["speed_"], b["handbrake_"]
    if b["throttle_disabled_"] or hb:
        return v, None
    w = v + (b["max_dec_"] if u < 0 else b["max_acc_"]) * u * dt
    if v > 0 and w < 0:
        return 0.0, 1
    if drag:
        w *= 1 - b["engine_brake_factor_"]
    return clamp(w, -b["max_speed_"], b["max_speed_"]), 0


def controls(r):
    dt = 0.25
    for v, w, dis, hb in itertools.product((8.0, 0.5, -3.0, 11.9, -11.9, 0.0), (0.1, -0.9), ((0, 0), (1, 0), (0, 1), (1, 1)), (0, 1)):
        b, setup = state(speed_=v, wheelAngle_=w, throttle_disabled_=dis[0], steering_disabled_=dis[1], handbrake_=hb)
        for u, s in itertools.product((-1, 0, 1), (-1, 0, 1)):
            what = "speed %s, wheel %s%s%s%s" % (v, w, ", hand brake" if hb else "", ", no throttle" if dis[0] else "", ", no steering" if dis[1] else "")
            v2, h2 = driven(b, u, dt, u == 0)
            k = 1 / (1 + 0.01 * v2 * v2)
            w2 = w if dis[1] else clamp((w + k * 3.0 * s * dt) * (1 - 2.0 * dt if s == 0 else 1), -k * MAXW, k * MAXW)
            e = {"speed": (g("speed_"), v2), "wheel angle": (g("wheelAngle_"), w2), "moved once": (moved, 1)}
            if h2 is not None:
                e["hand brake"] = (g("handbrake_"), h2)
            elif hb and not dis[0]:
                e["hand brake"] = (g("handbrake_"), int(u != 0))
            r.values("%s, buttons %d %d" % (what, u, s), "Vehicle::DrivingControlBinary", setup, {"$0": dt, "$1": u, "$2": s}, e, watch=step)
        for u, s in itertools.product((-1.0, -0.5, 0.0, 0.75), (-0.5, 0.0, 1.0)):
            v2, h2 = driven(b, u, dt, u == 0)
            k = 1 / (1 + 0.005 * v2 * v2)
            w2 = w if dis[1] else clamp((w + k * 3.0 * s * dt) * (1 - 2.0 * dt), -k * MAXW, k * MAXW)
            e = {"speed": (g("speed_"), v2), "wheel angle": (g("wheelAngle_"), w2), "moved once": (moved, 1)}
            if h2 is not None:
                e["hand brake"] = (g("handbrake_"), h2)
            elif hb and not dis[0]:
                e["hand brake"] = (g("handbrake_"), int(u < 0))
            r.values("%s, pedals %s %s" % (what, u, s), "Vehicle::DrivingControlAnalog", setup, {"$0": dt, "$1": u, "$2": s}, e, watch=step)
        if hb:
            continue
        for a, s in itertools.product((-40.0, -2.0, 0.0, 3.0, 60.0), (-2.0, 0.5, 1.5)):
            e = {"speed": (g("speed_"), v if dis[0] else clamp(v + a * dt, -12.0, 12.0)), "wheel angle": (g("wheelAngle_"), w if dis[1] else clamp(s, -MAXW, MAXW)), "moved once": (moved, 1)}
            r.values("%s, acceleration %s, angle %s" % (what, a, s), "Vehicle::DrivingControlAccAndSteer", setup, {"$0": dt, "$1": a, "$2": s}, e, watch=step)
        if dis != (0, 0):
            continue
        for t, h in itertools.product((-20.0, 0.0, v, v + 0.5, 20.0), (-2.0, 0.25, 1.5)):
            v2 = clamp(v + clamp(5.0 * (t - v), -5.0, 5.0) * dt, -12.0, 12.0)
            k = 1 / (1 + 0.01 * v2 * v2)
            r.values("%s, target speed %s, heading %s" % (what, t, h), "Vehicle::DrivingControlTarget", setup, {"$0": dt, "$1": t, "$2": h}, {
                "speed": (g("speed_"), v2), "wheel angle": (g("wheelAngle_"), clamp(h, -k * MAXW, k * MAXW)), "moved once": (moved, 1)}, watch=step)


def motion(r):
    for v, w, h, dt in itertools.product((8.0, -3.0, 0.0), (0.0, 0.4, -1.0), (0.05, 3.0, 6.25), (0.25, 0.0)):
        _, setup = state(speed_=v, wheelAngle_=w, heading_=h)
        a = math.atan(0.15 * math.tan(w))
        hd = v * math.sin(a) / (4.0 * 0.15)
        r.values("motion at speed %s, wheel %s, heading %s, step %s" % (v, w, h, dt), "Vehicle::Update", setup, {"$0": dt}, {
            "x": (g("posX_"), 10 + dt * v * math.cos(a + h)), "y": (g("posY_"), 20 + dt * v * math.sin(a + h)), "heading": (turn(g("heading_")), t8(h + dt * hd)), "heading rate": (g("headingDot_"), hd),
            "x velocity": (g("velX_"), v * math.cos(a + h)), "y velocity": (g("velY_"), v * math.sin(a + h)), "wheel rotation": (turn(g("wheelRotation_")), t8(2.0 + v * dt / 0.35)),
            "speed": (g("speed_"), v), "wheel angle": (g("wheelAngle_"), w), "heading in range": (in_range, 1)})
    for x, h, n, v in itertools.product((10.0, -3.0), (1.0, 0.0), (4.0, 6.5), (8.0, 0.0, -2.0)):
        _, setup = state(posX_=77.0, posY_=78.0, heading_=7.9, speed_=6.0, handbrake_=1, throttle_disabled_=1, steering_disabled_=1)
        w = {m: (g(m), u) for m, u in (("posX_", x), ("posY_", 20.0), ("heading_", h), ("length_", n), ("speed_", v), ("handbrake_", 0), ("throttle_disabled_", 0), ("steering_disabled_", 0),
                                       ("wheelAngle_", 0.0), ("wheelRotation_", 0.0), ("posZ_", 0.0), ("pitch_", 0.0))}
        r.values("new vehicle at %s, heading %s, length %s, speed %s" % (x, h, n, v), "Vehicle::Vehicle", setup, {"$0": x, "$1": 20.0, "$2": h, "$3": n, "$4": v}, w, pick=lambda f: len(f.params) == 5)


def in_range(x):
    h = x.eng.read(x.st, loc("this.heading_", x.fn))
    return ("c", int(-1e-9 <= h[1] <= 2 * math.pi + 1e-9)) if is_c(h) else h


SET = {"SE_SimpleVehicleSetSpeed": ("speed_", 1), "SE_SimpleVehicleSetThrottleDisabled": ("throttle_disabled_", 1), "SE_SimpleVehicleSetSteeringDisabled": ("steering_disabled_", 1),
       "SE_SimpleVehicleSetMaxSpeed": ("max_speed_", 1 / 3.6), "SE_SimpleVehicleSetMaxAcceleration": ("max_acc_", 1), "SE_SimpleVehicleSetMaxDeceleration": ("max_dec_", 1),
       "SE_SimpleVehicleSetEngineBrakeFactor": ("engine_brake_factor_", 1), "SE_SimpleVehicleSteeringScale": ("steering_scale_", 1), "SE_SimpleVehicleSteeringReturnFactor": ("steering_return_factor_", 1),
       "SE_SimpleVehicleSteeringRate": ("steering_rate_", 1)}
DRIVE = {"SE_SimpleVehicleControlBinary": "DrivingControlBinary", "SE_SimpleVehicleControlAnalog": "DrivingControlAnalog", "SE_SimpleVehicleControlAccAndSteer": "DrivingControlAccAndSteer",
         "SE_SimpleVehicleControlTarget": "DrivingControlTarget"}


def library(r):
    names = sorted({m for m, _ in SET.values()})

    def setup(st, f):
        p = f.params[0]
        st.env[("v", 0, p, f.vars[p].name)] = ptr("V1")
        for i, m in enumerate(names):
            st.env[loc("V1." + m)] = ("c", 0.5 + i)
    for fn, (mem, k) in sorted(SET.items()):
        val = 1 if "Disabled" in fn else 7.25
        r.values(fn, fn, setup, {"$1": val}, {m: (near(lambda x, m=m: x.eng.read(x.st, loc("V1." + m))), n9(val * k if m == mem else 0.5 + i)) for i, m in enumerate(names)})
    for fn, meth in sorted(DRIVE.items()):
        def watch(name, q, recv, vals, n):
            if name.startswith("DrivingControl"):
                return (name, recv) + tuple(vals), ("c", 0)
            return quiet(name, q, recv, vals, n)
        vals = (0.25, 1, -1) if "Binary" in fn else (0.25, 0.5, -0.75)
        e = {"step": (lambda x, meth=meth: ("c", int([k[:2] for k in x.ev] == [(meth, "V1")])), 1)}
        for i, v in enumerate(vals):
            e["argument %d" % i] = (near(lambda x, i=i: x.ev[0][2 + i] if x.ev and len(x.ev[0]) > 2 + i else None), v)
        r.values(fn, fn, setup, {"$%d" % (i + 1): v for i, v in enumerate(vals)}, e, watch=watch)
