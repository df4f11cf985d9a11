"""Object sensors report exactly the objects within their range and field of view.

One update of a sensor is derived from the control flow graph for tables of objects around sensors mounted at different
places and angles, and compared with the definition of range and field of view.
"""
import itertools
import math
from flow import is_c
from lookup import Tables, ptr, quiet
from trace import loc
from G01 import enumerator as en
from G02 import near, turn, t8

ASSUMPTIONS = ["the values of the tables stand for all values with the same order relative to range and field of view", "objects exactly on the limit of range or view may be reported or not"]
NEAR, FAR, FOV = 2.0, 30.0, 1.2


def run(ctx):
    p = ctx.program()
    r = Tables(ctx, p, "scenarioengine::")
    r.limit = 80
    r.maxd = 60
    detection(r)
    construction(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


def put(st, o, **kw):
    for k, v in kw.items():
        st.env[loc(o + "." + k)] = v if isinstance(v, tuple) else ("c", v)


def body(st, o, x, y, h=0.3, z=1.0, vel=(0.0, 0.0), acc=(0.0, 0.0), rate=0.0, hacc=0.0):
    put(st, o + ".pos_", x_=x, y_=y, z_=z, h_=h, velX_=vel[0], velY_=vel[1], accX_=acc[0], accY_=acc[1], h_rate_=rate, h_acc_=hacc)


def hit(i, m):
    return lambda x: x.eng.read(x.st, ("f", ("i", ("g", "H0"), ("c", i)), m))


def count(x):
    return x.eng.read(x.st, loc("this.nObj_", x.fn))


def sensor(st, f, objects, mount, room, before):
    put(st, "E0.object_", **{"#size": len(objects)})
    for i, o in enumerate(objects):
        st.env[loc("E0.object_[%d]" % i)] = ptr(o)
    for k, v in (("entities_", ptr("E0")), ("host_", ptr("O0")), ("near_", ("c", NEAR)), ("near_sq_", ("c", NEAR ** 2)), ("far_", ("c", FAR)), ("far_sq_", ("c", FAR ** 2)), ("fovH_", ("c", FOV)),
                 ("maxObj_", ("c", room)), ("nObj_", ("c", before)), ("hitList_", ptr("H0"))):
        st.env[loc("this." + k, f)] = v
    for k, v in zip("xyzh", mount):
        st.env[loc("this.pos_." + k, f)] = ("c", v)


def detection(r):
    vis = en(r.p, "Object::Visibility", "SENSORS")
    rest = en(r.p, "Object::Visibility", "GRAPHICS") | en(r.p, "Object::Visibility", "TRAFFIC")

    def world(name, q, recv, vals, n):
        if name == "IsGhost":
            return "", ("c", int(recv in GHOST))
        return quiet(name, q, recv, vals, n)
    GHOST = set()
    host = (100.0, 50.0)

    def at(mount, hh, d, a):
        """a point at distance d and angle a from the axis of the sensor, in the world"""
        x = host[0] + mount[0] * math.cos(hh) - mount[1] * math.sin(hh)
        y = host[1] + mount[0] * math.sin(hh) + mount[1] * math.cos(hh)
        return x + d * math.cos(hh + mount[3] + a), y + d * math.sin(hh + mount[3] + a)

    def case(what, mount, hh, objs, room=8, masks=None, ghosts=(), before=3, at_host=1):
        """objs: (distance, angle) of O1, O2 ...; the host is the object with index at_host"""
        GHOST.clear()
        GHOST.update(ghosts)
        names = ["O%d" % (i + 1) for i in range(len(objs))]
        masks = masks or {}

        def setup(st, f):
            sensor(st, f, names[:at_host] + ["O0"] + names[at_host:], mount, room, before)
            body(st, "O0", host[0], host[1], hh, 2.0, (3.0, 1.0), (0.5, 0.25), 0.1, 0.05)
            st.env[loc("O0.visibilityMask_")] = ("c", vis | rest)
            for o, (d, a) in zip(names, objs):
                x, y = at(mount, hh, d, a)
                body(st, o, x, y, 0.75, 2.5, (7.0, -2.0), (1.5, 1.25), 0.3, 0.15)
                st.env[loc(o + ".visibilityMask_")] = ("c", masks.get(o, vis | rest))
        seen = [o for o, (d, a) in zip(names, objs) if NEAR <= d <= FAR and abs(a) < FOV / 2 and o not in ghosts and masks.get(o, vis) & vis][:room]
        w = {"number of objects": (count, len(seen))}
        c, s = math.cos(-(hh + mount[3])), math.sin(-(hh + mount[3]))
        for i, o in enumerate(seen):
            d, a = objs[int(o[1:]) - 1]
            w.update({"object %d" % i: (hit(i, "obj_"), "@" + o), "x of %d" % i: (near(hit(i, "x_")), d * math.cos(a)), "y of %d" % i: (near(hit(i, "y_")), d * math.sin(a)),
                      "x velocity of %d" % i: (near(hit(i, "velX_")), 4.0 * c + 3.0 * s), "y velocity of %d" % i: (near(hit(i, "velY_")), 4.0 * s - 3.0 * c),
                      "x acceleration of %d" % i: (near(hit(i, "accX_")), 1.0 * c - 1.0 * s), "y acceleration of %d" % i: (near(hit(i, "accY_")), 1.0 * s + 1.0 * c),
                      "heading of %d" % i: (turn(hit(i, "yaw_")), t8(0.75 - hh - mount[3])), "heading rate of %d" % i: (near(hit(i, "yawRate_")), 0.2)})
        f, rs, t = r.runs("ObjectSensor::Update", setup, None, watch=world)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for x in rs:
            for k, (g, v) in w.items():
                r.judge(what + ", " + k, f, g(x), v)
            far = [l for l in x.st.env if l[0] == "f" and l[1][0] == "i" and l[1][1] == ("g", "H0") and is_c(l[1][2]) and l[1][2][1] >= room]
            r.ok(what + ", within the list", f, not far, "writes entry %s of a list with room for %d objects" % (far[0][1][2][1] if far else "", room))
    mounts = [(2.0, 0.5, 0.4, h) for h in (0.0, 1.5, -1.5, 3.0)] + [(-1.0, 0.0, 0.5, 0.4)]
    for mount, hh, d, a in itertools.product(mounts, (0.4, -2.0), (1.9, 2.1, 15.0, 29.5, 30.5), (0.1, -0.1, 0.55, -0.55, 0.65, -0.65, 1.6, -1.6, 3.0)):
        case("object at %s m, %s rad, sensor at %s, host heading %s" % (d, a, mount, hh), mount, hh, [(d, a)])
    m = mounts[0]
    for k, masks, ghosts in (("visible", {}, ()), ("hidden from sensors", {"O1": rest}, ()), ("only for sensors", {"O1": vis}, ()), ("ghost", {}, ("O1",))):
        for i in (0, 1, 2):
            case("first object %s, host is number %d" % (k, i), m, 0.4, [(10.0, 0.2), (12.0, -0.2)], masks=masks, ghosts=ghosts, at_host=i)
    seen, close, distant, aside = (10.0, 0.2), (1.0, 0.1), (40.0, 0.1), (10.0, 1.5)
    for objs in itertools.permutations((seen, close, distant, aside)):
        case("objects at %s" % (objs,), m, 0.4, list(objs), at_host=4, room=1)
    for room, n in itertools.product((0, 1, 2, 3), (1, 2, 3)):
        case("%d objects, room for %d" % (n, room), m, 0.4, [(5.0 + 2 * i, 0.1 * i) for i in range(n)], room=room, at_host=n)


def construction(r):
    val = (2.0, 0.5, 0.4, 1.5, 2.5, 30.0, 1.2)
    args = {"$%d" % (i + 2): v for i, v in enumerate(val)}
    args["$9"] = 8
    g = lambda m: near(lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))

    def given(st, f):
        for i, o in ((0, "E0"), (1, "O0")):
            p = f.params[i]
            st.env[("v", 0, p, f.vars[p].name)] = ptr(o)
    w = {n: (g(m), v) for n, m, v in (("range start", "near_", 2.5), ("range end", "far_", 30.0), ("field of view", "fovH_", 1.2), ("room", "maxObj_", 8), ("number of objects", "nObj_", 0),
                                      ("squared range start", "near_sq_", 6.25), ("squared range end", "far_sq_", 900.0))}
    w["host"] = (lambda x: x.eng.read(x.st, loc("this.host_", x.fn)), "@O0")
    r.values("new sensor", "ObjectSensor::ObjectSensor", given, args, w, watch=quiet)
    r.values("mounted sensor", "BaseSensor::BaseSensor", None, {"$%d" % (i + 1): v for i, v in enumerate(val[:4])}, {
        n: (g("pos_." + n), v) for n, v in zip("xyzh", val)}, watch=quiet)
