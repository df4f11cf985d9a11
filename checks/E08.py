"""Collisions, distances and times between objects.

The functions that relate two objects are derived from the control flow graph for tables of boxes around each other (places,
headings, offsets of the box, levels, trailers, speeds) and compared with the definitions of overlap and distance.
"""
import itertools
import math
from flow import is_c, NULL
from lookup import Tables, deref, ptr, quiet
from trace import Trace, loc
from G01 import enumerator as en
from G02 import near

ASSUMPTIONS = ["the values of the tables stand for all values with the same order and signs", "boxes that touch within the smallest number may count as overlapping or not",
               "distances between reference points are those of the road manager (G02, G03)"]
NS = "scenarioengine::"


def run(ctx):
    p = ctx.program()
    r = Tables(ctx, p, NS)
    r.limit = 120
    r.maxd = 80
    overlap(r)
    points(r)
    parts(r)
    times(r)
    begun(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


# ---- boxes -----------------------------------------------------------------------------------------------------------
def corners(b):
    x, y, h, z, cx, cy, l, w = b
    c, s = math.cos(h), math.sin(h)
    return [(x + c * u - s * v, y + s * u + c * v) for u, v in ((cx + l / 2, cy + w / 2), (cx - l / 2, cy + w / 2), (cx - l / 2, cy - w / 2), (cx + l / 2, cy - w / 2))]


def spans(b, pts):
    """gap between the box b and the points, along the axes of the box: (longitudinal, lateral), signed"""
    c, s = math.cos(b[2]), math.sin(b[2])
    res = []
    for n in ((c, s), (-s, c)):
        a = [n[0] * x + n[1] * y for x, y in corners(b)]
        o = [n[0] * x + n[1] * y for x, y in pts]
        res.append(min(o) - max(a) if max(a) < min(o) - 1e-6 else -(min(a) - max(o)) if min(a) > max(o) + 1e-6 else 0.0)
    return res


def apart(a, b):
    return any(spans(a, corners(b))) or any(spans(b, corners(a)))


def edge(p, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    t = max(0.0, min(1.0, ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / (d[0] ** 2 + d[1] ** 2)))
    q = a[0] + t * d[0], a[1] + t * d[1]
    return math.hypot(p[0] - q[0], p[1] - q[1]), q


def distance(a, b):
    if not apart(a, b):
        return 0.0
    return min(edge(p, c[i], c[(i + 1) % 4])[0] for u, v in ((a, b), (b, a)) for p in corners(u) for c in (corners(v),) for i in range(4))


def put(st, o, b, f=None):
    x, y, h, z, cx, cy, l, w = b
    for k, v in (("pos_.x_", x), ("pos_.y_", y), ("pos_.h_", h), ("pos_.z_", z), ("boundingbox_.center_.x_", cx), ("boundingbox_.center_.y_", cy),
                 ("boundingbox_.dimensions_.length_", l), ("boundingbox_.dimensions_.width_", w)):
        st.env[loc(o + "." + k, f) if f is not None else loc(o + "." + k)] = ("c", v)


def arg(st, f, i, o):
    p = f.params[i]
    st.env[("v", 0, p, f.vars[p].name)] = ptr(o)


def place(x, y, h, z=0.0, cx=1.4, cy=0.0, l=5.0, w=2.0):
    return (x, y, h, z, cx, cy, l, w)


PIVOT = [place(20.0, 10.0, 0.0), place(20.0, 10.0, 0.7, cy=0.3), place(20.0, 10.0, 3.6, cx=-0.5)]
AROUND = [(d * math.cos(a), d * math.sin(a)) for d in (0.5, 2.3, 3.2, 4.8, 6.5) for a in (0.1, 0.9, 1.7, 2.6, 3.4, 4.2, 5.0, 5.9)]


def overlap(r):
    f = r.p.q1(NS + "Object::CollisionAndRelativeDistLatLong")

    def two(a, b, args):
        def setup(st, f):
            put(st, "this", a, f)
            put(st, "O1", b)
            arg(st, f, 0, "O1")
            for i in (1, 2):
                if args:
                    arg(st, f, i, "R%d" % i)
                else:
                    q = f.params[i]
                    st.env[("v", 0, q, f.vars[q].name)] = NULL
        return setup
    out = lambda n: near(lambda x: x.eng.read(x.st, ("g", n)))
    for a, (dx, dy), h, (l, w) in itertools.product(PIVOT, AROUND, (0.0, 1.2), ((5.0, 2.0), (1.0, 0.8))):
        b = place(a[0] + dx, a[1] + dy, h, cx=0.8, cy=-0.2, l=l, w=w)
        lo, la = spans(a, corners(b))
        what = "box at %.2f %.2f heading %s length %s, other %s" % (dx, dy, h, l, a)
        if l == 5.0 or h:
            r.value("overlap, " + what, "Object::CollisionAndRelativeDistLatLong", two(a, b, 0), {}, not apart(a, b))
        if l == 5.0 and h:
            wants = {"overlaps": (None, not apart(a, b)), "lateral gap": (out("R1"), la), "longitudinal gap": (out("R2"), lo)}
            r.values("gap, " + what, "Object::CollisionAndRelativeDistLatLong", two(a, b, 1), {}, wants)
    for (l, m), (dx, dy), h in itertools.product(((1.0, 16.0), (16.0, 1.0)), [(d * math.cos(k), d * math.sin(k)) for d in (5.0, 8.0, 12.0) for k in (0.4, 2.0, 4.0)], (0.4, 2.0)):
        a, b = place(20.0, 10.0, 0.4, cx=0.0, l=l), place(20.0 + dx, 10.0 + dy, h, cx=0.0, l=m)
        r.value("overlap, length %s with length %s at %.2f %.2f heading %s" % (l, m, dx, dy, h), "Object::CollisionAndRelativeDistLatLong", two(a, b, 0), {}, not apart(a, b))
    a = PIVOT[1]
    for dz in (0.0, 1.0, -1.0, 30.0, -30.0):
        b = place(a[0] + 1, a[1] + 1, 0.3, z=dz)
        r.value("overlap, height difference %s" % dz, "Object::CollisionAndRelativeDistLatLong", two(a, b, 0), {}, abs(dz) < 20)
    for a, (dx, dy), h in itertools.product(PIVOT[1:], AROUND[::5], (1.2,)):
        b = place(a[0] + dx, a[1] + dy, h, cx=0.8)
        r.value("free space, box at %.2f %.2f, other %s" % (dx, dy, a), "Object::FreeSpaceDistance", two(a, b, 1), {}, distance(a, b), get=near(lambda x: x.ret))


def points(r):
    for a, (dx, dy) in itertools.product(PIVOT, AROUND):
        x, y = a[0] + dx, a[1] + dy
        inside = not any(spans(a, [(x, y)]))
        c = corners(a)
        d, q = (0.0, (x, y)) if inside else min(edge((x, y), c[i], c[(i + 1) % 4]) for i in range(4))
        co, si = math.cos(a[2]), math.sin(a[2])
        lo, la = (x - q[0]) * co + (y - q[1]) * si, -(x - q[0]) * si + (y - q[1]) * co

        def setup(st, f):
            put(st, "this", a, f)
            arg(st, f, 2, "R1")
            arg(st, f, 3, "R2")
        out = lambda n: near(lambda z: z.eng.read(z.st, ("g", n)))
        r.values("point at %.2f %.2f, box %s" % (dx, dy, a), "Object::FreeSpaceDistancePoint", setup, {"$0": x, "$1": y},
                 {"distance": (near(lambda z: z.ret), d), "lateral": (out("R1"), la), "longitudinal": (out("R2"), lo)})


def chain(r, links, gaps=None):
    """watch: the towing and towed vehicles by name; gaps: distances along the road by name"""
    tow, pull = {}, {}
    for l in links:
        for a, b in zip(l, l[1:]):
            tow[b], pull[a] = a, b

    def watch(name, q, recv, vals, n):
        if name == "TowVehicle":
            o = tow.get(recv, 0)
            return "", ptr(o) if o else NULL
        if name == "TrailerVehicle":
            o = pull.get(recv, 0)
            return "", ptr(o) if o else NULL
        if name == "FreeSpaceDistanceObjectRoadLane" and gaps is not None and vals[1][0] == "&":
            o = vals[0][1][1] if vals[0][0] == "&" else ""
            g = gaps.get((recv, o))
            if g is not None:
                return "", ("c", 0), [(("f", vals[1][1], "ds"), ("c", g[0])), (("f", vals[1][1], "dt"), ("c", g[1]))]
            return None
        return quiet(name, q, recv, vals, n)

    return watch


def parts(r):
    cs = lambda n: en(r.p, "CoordinateSystem", "CS_" + n)
    rd = lambda n: en(r.p, "RelativeDistanceType", "REL_DIST_" + n)
    own = {"O0": place(0.0, 0.0, 0.1), "O1": place(-9.0, -1.0, 0.2, l=6.0)}
    far = [place(x, y, h) for x, y, h in ((15.0, 4.0, 0.3), (-25.0, 3.0, -0.2), (-8.0, 6.0, 0.0), (1.0, -0.5, 0.4), (2.0, 6.0, 1.0))]
    out = near(deref(4))
    both = lambda f: len(f.params) == 6

    def obj(mine, theirs, target, boxes, c, d, want, what, gaps=None):
        w = chain(r, (mine, theirs), gaps)

        def setup(st, f):
            st.env[("v", 0, "this")] = ptr("O0")
            for o, b in boxes.items():
                put(st, o, b)
            arg(st, f, 0, target)
        wants = {"found": (None, 0), "distance": (out, want)}
        r.values(what, "Object::Distance", setup, {"$1": cs(c), "$2": rd(d), "$3": 1}, wants, watch=w, pick=both, inline=12)
    for b in far:
        second = place(b[0] - 8.0 * math.cos(b[2] + 0.1), b[1] - 8.0 * math.sin(b[2] + 0.1), b[2] + 0.1, l=7.0)
        for mine, theirs, target in ((("O0",), ("O2",), "O2"), (("O0", "O1"), ("O2",), "O2"), (("O0",), ("O2", "O3"), "O2"), (("O0",), ("O2", "O3"), "O3"), (("O1", "O0"), ("O2",), "O2"), (("O0", "O1"), ("O2", "O3"), "O3")):
            boxes = dict(own, O2=b, O3=second)
            ds = sorted((distance(boxes[u], boxes[v]), spans(boxes[u], corners(boxes[v]))) for u in mine for v in theirs)
            d, (lo, la) = ds[0]
            what = "train %s to %s of %s at %s" % (mine, target, theirs, b[:3])
            if d == 0.0:
                obj(mine, theirs, target, boxes, "ENTITY", "EUCLIDIAN", 0.0, what)
                continue
            if len(ds) > 1 and abs(ds[1][0] - d) < 1e-6:
                continue
            obj(mine, theirs, target, boxes, "ENTITY", "EUCLIDIAN", d * (-1 if lo < 0 else 1), what)
            if len(mine) + len(theirs) == 3 and b in far[1:3] or len(mine) + len(theirs) == 2:
                obj(mine, theirs, target, boxes, "ENTITY", "LATERAL", la, what + ", lateral")
                obj(mine, theirs, target, boxes, "ENTITY", "LONGITUDINAL", lo, what + ", longitudinal")
            def gap(u, v, dim):
                if not apart(boxes[u], boxes[v]):
                    return 0.0
                a, e = [c[dim] for c in corners(boxes[u])], [c[dim] for c in corners(boxes[v])]
                return min(e) - max(a) if min(e) > max(a) else max(e) - min(a) if max(e) < min(a) else 0.0
            gaps = {(u, v): (gap(u, v, 0), gap(u, v, 1)) for u in mine for v in theirs}
            for k, dim in (("LONGITUDINAL", 0), ("LATERAL", 1)):
                obj(mine, theirs, target, boxes, "ROAD", k, min((g[dim] for g in gaps.values()), key=abs), what + ", along the road, " + k.lower(), gaps)
def times(r):
    BIG = 1e10

    def dist(found, d):
        def watch(name, q, recv, vals, n):
            if name == "Distance":
                o = [a[1] for a, k in zip(Trace.last[1], (n.g("pm") or "")) if a[0] == "L" and k == "r"]
                return "", ("c", 0 if found else -1), [(x, ("c", d)) for x in o[-1:]]
            return quiet(name, q, recv, vals, n)
        return watch
    out = near(deref(4))
    for d, v in itertools.product((0.0, 10.0, 25.0, -10.0), (5.0, 2.5, 0.0, -5.0)):
        def setup(st, f):
            arg(st, f, 0, "O1")
            st.env[loc("this.speed_", f)] = ("c", v)
        r.value("headway, distance %s, speed %s" % (d, v), "Object::TimeHeadway", setup, {}, -1.0 if d < 0 or v <= 0 else d / v, get=out, watch=dist(True, d))
    for d, v, h, (tv, th) in itertools.product((10.0, 25.0, -10.0), (5.0, 2.5, 0.0, -5.0), (0.5,), ((0.0, 0.5), (2.0, 0.0), (8.0, 0.0), (2.0, math.pi), (8.0, math.pi), (-3.0, 0.0), (4.0, 1.0), (4.0, -1.0))):
        def setup(st, f):
            arg(st, f, 0, "O1")
            for o, x, a in (("this", v, h), ("O1", tv, h + th)):
                at = lambda m: loc(o + "." + m, f) if o == "this" else loc(o + "." + m)
                st.env[at("speed_")] = ("c", x)
                st.env[at("pos_.velX_")] = ("c", x * math.cos(a))
                st.env[at("pos_.velY_")] = ("c", x * math.sin(a))
        if v == 0.0 and tv:
            continue        # the direction of a standing object is not defined by its velocity
        if tv:
            proj = v * math.cos(th) * (1 if tv > 0 else -1)
            rel = (-1 if v < 0 else 1) * (-1 if proj < 0 else 1) * (proj - abs(tv))
        else:
            rel = v
        want = -1.0 if abs(rel) < 1e-6 or d / rel < 0 else d / rel
        r.value("time to collision, distance %s, speed %s, target %s at %.2f rad" % (d, v, tv, th), "Object::TimeToCollision", setup, {}, want, get=out, watch=dist(True, d))


def begun(r):
    g = lambda m: (lambda x: x.eng.read(x.st, loc("this." + m, x.fn)))
    for n, m in (("EndOfRoad", "end_of_road_timestamp_"), ("OffRoad", "off_road_timestamp_"), ("StandStill", "stand_still_timestamp_")):
        for others in (4.0,):
            def setup(st, f):
                for k in ("end_of_road_timestamp_", "off_road_timestamp_", "stand_still_timestamp_"):
                    st.env[loc("this." + k, f)] = ("c", others)
            for state, t in ((1, 7.5), (0, 7.5)):
                w = {k: (g(k), (t if state else 0.0) if k == m else others) for k in ("end_of_road_timestamp_", "off_road_timestamp_", "stand_still_timestamp_")}
                r.values("%s set to %d" % (n, state), "Object::Set" + n, setup, {"$0": state, "$1": t}, w)
        for v in (0.0, 3.5):
            def setup(st, f):
                for k in ("end_of_road_timestamp_", "off_road_timestamp_", "stand_still_timestamp_"):
                    st.env[loc("this." + k, f)] = ("c", v if k == m else 3.5 - v)
            r.value("Is%s, since %s" % (n, v), "Object::Is" + n, setup, {}, v > 0)
            r.value("Get%sTimestamp, since %s" % (n, v), "Object::Get%sTimestamp" % n, setup, {}, v)
