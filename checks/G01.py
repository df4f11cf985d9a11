"""The road at a given distance is described by the records that cover it.

For each look-up along a road (lane section, lane width, material and height, lane offset, elevation, superelevation, road
type, speed limit, road mark) the record selected is derived from the control flow graph for positions before, at, between
and behind the starts of three records and compared with: the last record that starts at or before the position. The value
found is compared, as a polynomial, with the record's polynomial at the distance from the start of the record. Lane
offsets are compared with the sum of the widths of the lanes between the lane and the centre.
"""
import itertools
from flow import NULL
from lookup import Tables, deref, member, fill, ptr, quiet
from trace import loc

ASSUMPTIONS = ["three records stand for any number of records, the enumerated positions for all positions between the same starts",
               "records are kept in order of their start"]
STARTS = (0, 10, 20)
AT = (0, 4, 10, 13, 20, 27)
UNDEF = 0xffffffff


def cover(s, starts=STARTS):
    return max([i for i, x in enumerate(starts) if x <= s] or [0])


def poly3(e, ds, d=0):
    a, b, c, k = ("%s.%s_" % (e, x) for x in "abcd")
    x = "(%s*%s.p_scale_)" % (ds, e)
    return ["%s + %s*%s + %s*%s*%s + %s*%s*%s*%s" % (a, x, b, x, x, c, x, x, x, k),
            "%s + 2*%s*%s + 3*%s*%s*%s" % (b, x, c, x, x, k),
            "2*%s + 6*%s*%s" % (c, x, k)][d]


def records(st, f, cont, member, extra=None, starts=STARTS, tag="E"):
    fill(st, f, cont, [dict({member: s}, **(extra(i, s) if extra else {})) for i, s in enumerate(starts)], tag)


def run(ctx):
    r = Tables(ctx, ctx.program(), "roadmanager::")
    polynomials(r)
    lookups(r)
    profiles(r)
    lanes(r)
    roads(r)
    heights(r)
    marks(r)
    closest(r)
    added(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 200)


def polynomials(r):
    for d, n in enumerate(("Evaluate", "EvaluatePrim", "EvaluatePrimPrim")):
        r.value("polynomial, derivative %d" % d, "Polynomial::" + n, None, {"$0": 3.0}, poly3("this", 3, d))


def lookups(r):
    for n, cont, mem in (("Lane::GetWidthByS", "this.lane_width_", "s_offset_"), ("Lane::GetMaterialByS", "this.lane_material_", "s_offset")):
        for s in AT:
            r.value("%s at %s" % (n, s), n, lambda st, f: records(st, f, cont, mem), {"$0": float(s)}, "@E%d" % cover(s))
        r.value("%s without records" % n, n, lambda st, f: fill(st, f, cont, []), {"$0": 3.0}, None)
        for s in (0, 40):
            r.value("%s with one record at %s" % (n, s), n, lambda st, f: records(st, f, cont, mem, starts=(0,)), {"$0": float(s)}, "@E0")

    # lane sections, from any starting point
    def sections(st, f):
        records(st, f, "this.lane_section_", "s_", lambda i, x: {"length_": 10})
    for s, at in itertools.product(AT, range(3)):
        r.value("lane section at %s searched from section %d" % (s, at), "Road::GetLaneSectionIdxByS", sections, {"$0": float(s), "$1": at}, cover(s))
    for s, at in ((3.0, 3), (3.0, UNDEF), (99.0, 0)):
        r.value("no lane section (%s from %s)" % (s, at), "Road::GetLaneSectionIdxByS", sections, {"$0": s, "$1": at}, UNDEF)
    r.value("lane section at the end of the road", "Road::GetLaneSectionIdxByS", sections, {"$0": 30.0, "$1": 0}, 2)

    # road type and speed
    def types(st, f):
        st.env[loc("this.type_.#size", f)] = ("c", 3)
        for i, s in enumerate(STARTS):
            st.env[loc("this.type_[%d].first" % i, f)] = ("c", s)
            st.env[loc("this.type_[%d].second" % i, f)] = ptr("E%d" % i)
    for n, mem in (("GetSpeedByS", "speed_"), ("GetRoadTypeByS", "road_type_")):
        for s in AT:
            r.value("%s at %s" % (n, s), "Road::" + n, types, {"$0": float(s)}, "E%d.%s" % (cover(s), mem))
        r.value("%s before the first record" % n, "Road::" + n, types, {"$0": -1.0}, "E0." + mem)
        r.value("%s without records" % n, "Road::" + n, lambda st, f: st.env.__setitem__(loc("this.type_.#size", f), NULL), {"$0": 1.0}, 0)


def profiles(r):
    for n, d in (("GetLaneOffset", 0), ("GetLaneOffsetPrim", 1)):
        for s in AT:
            i = cover(s)
            r.value("%s at %s" % (n, s), "Road::" + n, lambda st, f: records(st, f, "this.lane_offset_", "s_"), {"$0": float(s)},
                    poly3("E%d.polynomial_" % i, s - STARTS[i], d))
        r.value("%s without records" % n, "Road::" + n, lambda st, f: fill(st, f, "this.lane_offset_", []), {"$0": 3.0}, 0)
    for s, at in itertools.product(AT, (0, 1, 2, 7)):
        i = cover(s)
        e, ds = "E%d.poly3_" % i, s - STARTS[i]

        def setup(st, f):
            records(st, f, "this.elevation_profile_", "s_", lambda i, x: {"length_": 10})
            st.env[("d", ("init", loc("$5", f)))] = ("c", at)
        r.values("elevation at %s searched from record %d" % (s, at), "Road::GetZAndPitchByS", setup, {"$0": float(s)},
                 {"height": (deref(1), poly3(e, ds)), "slope": (deref(2), poly3(e, ds, 1)), "curvature": (deref(3), poly3(e, ds, 2)),
                  "pitch": (deref(4), "-atan(%s)" % poly3(e, ds, 1)), "record": (deref(5), i), "found": (None, 1)})

        def setup(st, f):
            records(st, f, "this.super_elevation_profile_", "s_", lambda i, x: {"length_": 10})
            st.env[("d", ("init", loc("$3", f)))] = ("c", at)
        if s in STARTS:
            continue        # at the end of a record both neighbours are admitted
        r.values("superelevation at %s searched from record %d" % (s, at), "Road::UpdateRollByS", setup, {"$0": float(s)},
                 {"roll": (deref(2), poly3(e, ds)), "slope": (deref(1), poly3(e, ds, 1)), "record": (deref(3), i), "found": (None, 1)})
    r.values("no elevation", "Road::GetZAndPitchByS", lambda st, f: fill(st, f, "this.elevation_profile_", []), {"$0": 3.0},
             {"height": (deref(1), 0), "slope": (deref(2), 0), "curvature": (deref(3), 0), "pitch": (deref(4), 0), "found": (None, 0)})
    r.values("no superelevation", "Road::UpdateRollByS", lambda st, f: fill(st, f, "this.super_elevation_profile_", []), {"$0": 3.0},
             {"roll": (deref(2), 0), "slope": (deref(1), 0), "found": (None, 0)})


IDS = (3, 2, 1, 0, -1, -2, -3)
DRIVING = {3: 0, 2: 1, 1: 1, 0: 0, -1: 1, -2: 0, -3: 1}


def cross(st, f, widths=True):
    """a lane section from s = 100, each lane with width records at 0 and 10"""
    fill(st, f, "this.lane_", [{"id_": k} for k in IDS], "L")
    st.env[loc("this.s_")] = ("c", 100)
    st.env[loc("this.length_")] = ("c", 20)
    if widths:
        for j, k in enumerate(IDS):
            c = "L%d.lane_width_" % j
            st.env[loc(c + ".#size")] = ("c", 2 if k else 0)
            for m in range(2):
                st.env[loc(c + "[%d]" % m)] = ptr("W%d%d" % (j, m))
                st.env[loc("W%d%d.s_offset_" % (j, m))] = ("c", 10 * m)


def width(k, s, d=0):
    m = 1 if s >= 110 else 0
    return poly3("W%d%d.poly3_" % (IDS.index(k), m), min(s, 120) - 100 - 10 * m, d)


def lanes(r):
    def inner(k):
        s = 1 if k > 0 else -1
        return [s * i for i in range(1, abs(k))]
    for s in (100, 105, 110, 117, 125):
        for k in IDS + (5,):
            w = width(k, s) if k in IDS and k else "0"
            r.value("width of lane %d at %s" % (k, s), "LaneSection::GetWidth", cross, {"$0": float(s), "$1": k}, w)
    for s in (105, 117):
        for k in IDS:
            ins = " + ".join("(%s)" % width(i, s) for i in inner(k)) or "0"
            w = width(k, s) if k else "0"
            r.value("outer offset of lane %d at %s" % (k, s), "LaneSection::GetOuterOffset", cross, {"$0": float(s), "$1": k}, "%s + %s" % (ins, w), inline=14, recursion=6, limit=30)
            r.value("inner offset of lane %d at %s" % (k, s), "LaneSection::GetInnerOffset", cross, {"$0": float(s), "$1": k}, ins, inline=14, recursion=6, limit=30)
            r.value("centre offset of lane %d at %s" % (k, s), "LaneSection::GetCenterOffset", cross, {"$0": float(s), "$1": k}, "%s + (%s)/2" % (ins, w), inline=14, recursion=6, limit=30)
            for center in (0, 1):
                insp = " + ".join("(%s)" % width(i, s, 1) for i in inner(k)) or "0"
                wp = width(k, s, 1) if k else "0"
                r.value("slope of lane %d at %s%s" % (k, s, ", centre" if center else ""), "LaneSection::GetTotalLaneWidthPrim", cross,
                        {"$0": float(s), "$1": k, "$2": center}, "%s + (%s)*%s" % (insp, wp, "0.5" if center else "1"), inline=14, recursion=6, limit=30)
    for a, b in itertools.product((2, -1, -3), (1, -2, 3)):
        s = 105
        def off(k):
            return "(%s)" % (" + ".join("(%s)" % width(i, s) for i in inner(k)) or "0") + " + (%s)/2" % width(k, s)
        r.value("offset from lane %d to lane %d" % (a, b), "LaneSection::GetOffsetBetweenLanes", cross, {"$0": a, "$1": b, "$2": float(s)},
                "%s(%s) - %s(%s)" % ("-" if b < 0 else "", off(b), "-" if a < 0 else "", off(a)), inline=14, recursion=6, limit=30)

    # counting and numbering
    def cross2(st, f):
        cross(st, f, False)
        any_driving = r.drive
        for j, k in enumerate(IDS):
            st.env[loc("L%d.type_" % j)] = ("c", any_driving if DRIVING[k] or k == 0 else 1 << 30)
    r.drive = enumerator(r.p, "Lane::LaneType", "LANE_TYPE_DRIVING")
    r.value("number of driving lanes", "LaneSection::GetNumberOfDrivingLanes", cross2, None, sum(DRIVING.values()))
    for side in (-1, 1):
        r.value("number of driving lanes on side %d" % side, "LaneSection::GetNumberOfDrivingLanesSide", cross2, {"$0": side},
                sum(1 for k in IDS if DRIVING[k] and k * side > 0))
    r.value("lanes to the right", "LaneSection::GetNUmberOfLanesRight", cross2, None, 3)
    r.value("lanes to the left", "LaneSection::GetNUmberOfLanesLeft", cross2, None, 3)
    for j, k in enumerate(IDS):
        r.value("index of lane %d" % k, "LaneSection::GetLaneIdxById", cross2, {"$0": k}, j)
        r.value("id of lane index %d" % j, "LaneSection::GetLaneIdByIdx", cross2, {"$0": j}, k)
        r.value("global id of lane %d" % k, "LaneSection::GetLaneGlobalIdById", cross2, {"$0": k}, "L%d.g_id_" % j)
        r.value("global id of lane index %d" % j, "LaneSection::GetLaneGlobalIdByIdx", cross2, {"$0": j}, "L%d.g_id_" % j)
    r.value("index of a missing lane", "LaneSection::GetLaneIdxById", cross2, {"$0": 9}, UNDEF)
    for k, t, want in ((0, "LANE_TYPE_DRIVING", 0), (1, "LANE_TYPE_DRIVING", 1), (-2, "LANE_TYPE_SIDEWALK", 0), (-2, "LANE_TYPE_ENTRY", 1), (2, "LANE_TYPE_BIKING", 0)):
        r.value("lane %d of type %s drivable" % (k, t), "Lane::IsDriving", None, {"this.id_": k, "this.type_": enumerator(r.p, "Lane::LaneType", t)}, bool(want))


SECTIONS = ((0, 100, (2, 1, 0, -1)), (100, 20, IDS))


def road(st, f, this="this"):
    """two lane sections, the lanes with one width record each; the second as in cross()"""
    st.env[loc(this + ".length_", f)] = ("c", 120)
    st.env[loc(this + ".lane_section_.#size", f)] = ("c", 2)
    for i, (s, n, ids) in enumerate(SECTIONS):
        st.env[loc("%s.lane_section_[%d]" % (this, i), f)] = ptr("S%d" % i)
        st.env[loc("S%d.s_" % i)] = ("c", s)
        st.env[loc("S%d.length_" % i)] = ("c", n)
        st.env[loc("S%d.lane_.#size" % i)] = ("c", len(ids))
        for j, k in enumerate(ids):
            ln, w = "L%d%d" % (i, j), "W%d%d" % (i, j)
            st.env[loc("S%d.lane_[%d]" % (i, j))] = ptr(ln)
            st.env[loc(ln + ".id_")] = ("c", k)
            st.env[loc(ln + ".type_")] = ("c", 2 if DRIVING[k] else 1 << 3)
            st.env[loc(ln + ".lane_width_.#size")] = ("c", 1 if k else 0)
            st.env[loc(ln + ".lane_width_[0]")] = ptr(w)
            st.env[loc(w + ".s_offset_")] = ("c", 0)
            for x, v in zip("abcd", (abs(k) + 0.25 * (k > 0), 0.5, 0.0, 0.0)):
                st.env[loc("%s.poly3_.%s_" % (w, x))] = ("c", v)
            st.env[loc(w + ".poly3_.p_scale_")] = ("c", 1)


def wid(k, ds):
    return abs(k) + 0.25 * (k > 0) + 0.5 * ds


def roads(r):
    deep = dict(inline=14, recursion=6, limit=40)
    for s in (0, 40, 99, 100, 113, 120):
        i = 1 if s >= 100 else 0
        ids, ds = SECTIONS[i][2], s - SECTIONS[i][0]
        for k in (3, 2, 1, 0, -1, -2):
            r.value("width of lane %d at %s of the road" % (k, s), "Road::GetLaneWidthByS", road, {"$0": float(s), "$1": k}, wid(k, ds) if k and k in ids else 0, **deep)
            if k in ids:
                r.value("type of lane %d at %s of the road" % (k, s), "Road::GetLaneTypeByS", road, {"$0": float(s), "$1": k}, 2 if DRIVING[k] else 1 << 3, **deep)
                c = sum(wid(m, ds) for m in range(1, abs(k) + 1)) if k < 0 else sum(wid(m, ds) for m in range(1, k + 1))
                c = sum(wid(m if k > 0 else -m, ds) for m in range(1, abs(k) + 1)) - (wid(k, ds) / 2 if k else 0)
                r.value("centre of lane %d at %s of the road" % (k, s), "Road::GetCenterOffset", road, {"$0": float(s), "$1": k}, c, **deep)
        for side in (-1, 1):
            r.value("driving lanes on side %d at %s of the road" % (side, s), "Road::GetNumberOfDrivingLanesSide", road, {"$0": float(s), "$1": side},
                    sum(1 for k in ids if DRIVING[k] and k * side > 0), **deep)
        for mask, side in itertools.product((2, 1 << 3), (-1, 0, 1)):
            tot = 0
            for sd in (-1, 1) if side == 0 else (side,):
                out = max([abs(k) for k in ids if k * sd > 0 and (2 if DRIVING[k] else 1 << 3) & mask] or [0])
                tot += sum(wid(m * sd, ds) for m in range(1, out + 1))
            r.value("width of the road at %s, side %d, lane types %d" % (s, side, mask), "Road::GetWidth", road, {"$0": float(s), "$1": side, "$2": mask}, tot, **deep)


def heights(r):
    def setup(k, n):
        def go(st, f):
            st.env[loc("this.id_", f)] = ("c", k)
            st.env[loc("this.lane_height_.#size", f)] = ("c", n)
            for i, (s, a, b) in enumerate(((0, 1, 2), (10, 4, 8), (20, 3, 5))[:n]):
                for m, v in zip(("s_offset", "inner", "outer"), (s, a, b)):
                    st.env[loc("this.lane_height_[%d].%s" % (i, m), f)] = ("c", float(v))
            records(st, f, "this.lane_width_", "s_offset_", starts=(0,), tag="W")
            for x, v in zip("abcd", (4.0, 0.0, 0.0, 0.0)):
                st.env[loc("W0.poly3_.%s_" % x)] = ("c", v)
            st.env[loc("W0.poly3_.p_scale_")] = ("c", 1.0)
        return go
    for s, o, k in itertools.product((0, 5, 10, 14, 20, 30), (-5, -2, -1, 0, 1.5, 2, 7), (2, -1)):
        # inner and outer height, linear between the records
        pts = ((0, 1, 2), (10, 4, 8), (20, 3, 5))
        i = cover(s)
        a, b = pts[i][1:]
        if i < 2:
            t = (s - pts[i][0]) / 10
            a, b = a + t * (pts[i + 1][1] - a), b + t * (pts[i + 1][2] - b)
        u = min(1, max(0, ((o if k > 0 else -o) + 2) / 4))
        r.value("height at %s, offset %s of lane %d" % (s, o, k), "Lane::GetHeightBySAndOffset", setup(k, 3), {"$0": float(s), "$1": float(o)}, a + u * (b - a), inline=8, limit=20)
    r.value("height without records", "Lane::GetHeightBySAndOffset", setup(1, 0), {"$0": 1.0, "$1": 0.0}, 0)


def closest(r):
    """the lane that contains the position, else the one with the closest centre, among those of the given types and side"""
    ids = (2, 1, 0, -1, -2)
    w = {2: 3.0, 1: 4.0, 0: 0.0, -1: 2.0, -2: 3.5}

    def setup(st, f):
        fill(st, f, "this.lane_", [{"id_": k, "type_": 2 if k != 1 else 8} for k in ids], "L")
        st.env[loc("this.s_")] = ("c", 0.0)
        st.env[loc("this.length_")] = ("c", 100.0)
        for j, k in enumerate(ids):
            st.env[loc("L%d.lane_width_.#size" % j)] = ("c", 1 if k else 0)
            st.env[loc("L%d.lane_width_[0]" % j)] = ptr("W%d" % j)
            st.env[loc("W%d.s_offset_" % j)] = ("c", 0.0)
            for x, v in zip("abcd", (w[k], 0.0, 0.0, 0.0)):
                st.env[loc("W%d.poly3_.%s_" % (j, x))] = ("c", v)
            st.env[loc("W%d.poly3_.p_scale_" % j)] = ("c", 1.0)
    centre = {k: (1 if k > 0 else -1) * (sum(w[i if k > 0 else -i] for i in range(1, abs(k))) + w[k] / 2) if k else 0.0 for k in ids}
    for t, lo, side, mask, nz in itertools.product((-9.0, -4.0, -2.2, -0.5, 0.7, 3.1, 5.0, 8.0), (0.0, 1.5), (-1, 0, 1), (2, 8, 10, 64), (0, 1)):
        tt = t - lo
        ok = [k for k in ids if (8 if k == 1 else 2) & mask and (not nz or w[k] > 0) and (side == 0 or (k < 0) == (side < 0))]
        inside = [k for k in ok if abs(tt - centre[k]) < w[k] / 2]
        k = inside[0] if inside else min(ok, key=lambda k: abs(tt - centre[k])) if ok else 0
        off = tt - (centre[k] if ok else 0)
        if not inside and ok and sum(1 for m in ok if abs(abs(tt - centre[m]) - abs(off)) < 1e-9) > 1:
            continue
        what = "closest lane to %s, lane offset %s, side %d, types %d%s" % (t, lo, side, mask, "" if nz else ", any width")
        r.values(what, "LaneSection::GetClosestLaneIdx", setup, {"$0": 30.0, "$1": t, "$2": lo, "$3": side, "$5": nz, "$6": mask},
                 {"lane": (None, ids.index(k)), "offset": (deref(4), off)}, inline=14, recursion=6, limit=40)


def marks(r):
    def watch(name, q, recv, vals, n):
        if name == "GetRoadById":
            return "", ptr("R0")
        if name.startswith("Lookup"):
            return "", NULL
        return quiet(name, q, recv, vals, n)
    for typed in (0, 1):
        def setup(st, f):
            road(st, f, "R0")
            ln = "L14"
            st.env[loc(ln + ".lane_roadMark_.#size")] = ("c", 2)
            for m in range(2):
                mk = "M%d" % m
                st.env[loc("%s.lane_roadMark_[%d]" % (ln, m))] = ptr(mk)
                st.env[loc(mk + ".s_offset_")] = ("c", 10 * m)
                st.env[loc(mk + ".lane_roadMarkType_.#size")] = ("c", typed)
                st.env[loc(mk + ".lane_roadMarkType_[0].#ptr")] = ptr("T%d" % m)
                st.env[loc("T%d.lane_roadMarkTypeLine_.#size" % m)] = ("c", 2)
                for l in range(2):
                    st.env[loc("T%d.lane_roadMarkTypeLine_[%d].#ptr" % (m, l))] = ptr("N%d%d" % (m, l))
                    st.env[loc("N%d%d.s_offset_" % (m, l))] = ("c", 4 * l)
        for s in (100, 101, 105, 110, 113, 114, 119):
            m = 1 if s >= 110 else 0
            n = (1 if s - 100 - 10 * m >= 4 else 0) if typed else 0
            f, rs, t = r.runs("Lane::GetRoadMarkInfoByS", setup, {"$0": 1, "$1": -1, "$2": float(s)}, watch=watch, limit=40, inline=12)
            r.ctx.check(bool(rs), "road mark at %s: returns" % s, f.loc(), "does not return")
            for x in rs:
                got = [member(x, k) for k in ("roadmark_idx_", "roadmarkline_idx_")]
                r.judge("road mark at %s%s" % (s, ", lines" if typed else ""), f, got[0], m)
                r.judge("road mark line at %s%s" % (s, ", lines" if typed else ""), f, got[1], n)


def added(r):
    """a record reaches to the start of the next one, the last to the end of the road"""
    for n, cont in (("AddElevation", "elevation_profile_"), ("AddSuperElevation", "super_elevation_profile_"), ("AddLaneOffset", "lane_offset_"), ("AddLaneSection", "lane_section_")):
        def setup(st, f):
            fill(st, f, "this." + cont, [{"s_": 0, "length_": 50}, {"s_": 10, "length_": 40}])
            st.env[loc("this.length_", f)] = ("c", 50)
            st.env[loc("$0", f)] = ptr("X0")
            st.env[loc("X0.s_")] = ("c", 25)
            st.env[loc("X0.length_")] = ("c", 99)
        r.values(n, "Road::" + n, setup, None, {
            "length of the record before": (lambda x: x.value("E1.length_"), 15), "length of the new record": (lambda x: x.value("X0.length_"), 25),
            "length of the first record": (lambda x: x.value("E0.length_"), 50), "number of records": (lambda x: x.value("this.%s.#size" % cont), 3),
            "last record": (lambda x: x.value("this.%s[2]" % cont), "@X0"), "record before": (lambda x: x.value("this.%s[1]" % cont), "@E1")})

        def setup(st, f):
            fill(st, f, "this." + cont, [])
            st.env[loc("this.length_", f)] = ("c", 50)
            st.env[loc("$0", f)] = ptr("X0")
            st.env[loc("X0.s_")] = ("c", 0)
            st.env[loc("X0.length_")] = ("c", 99)
        r.values(n + " to none", "Road::" + n, setup, None, {
            "length of the new record": (lambda x: x.value("X0.length_"), 50), "number of records": (lambda x: x.value("this.%s.#size" % cont), 1),
            "record": (lambda x: x.value("this.%s[0]" % cont), "@X0")})


def enumerator(p, enum, name):
    from E01 import enum as en
    return en(p, enum, name)
