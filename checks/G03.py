"""Lanes continue where the road description links them.

Each look-up of the road network (lane links within a road, between roads and through junctions, junction connections,
roads and junctions by id, connected roads) is derived from the control flow graph over a network of known contents and
compared with the network: the lane, road, connection and end of the road that the links name.
"""
import itertools
import algebra as al
from flow import NULL, addr, is_c, loc_of
from lookup import Tables, deref, fill, member, ptr, quiet, by_key, by_index
from trace import Trace, loc
from G01 import enumerator as en

ASSUMPTIONS = ["two or three records of a kind stand for any number of records"]
UNDEF = 0xffffffff
# incoming road, connecting road, lane links
CONNECTIONS = ((1, 11, ((-1, -3), (-2, -4))), (2, 12, ((1, 2),)), (1, 13, ((-1, 3), (-3, 1))), (3, 14, ((-1, -1),)), (1, 15, ((-2, -5), (-1, -7), (-2, -6))))
CONTACT = ("CONTACT_POINT_START", "CONTACT_POINT_END")


def run(ctx):
    r = Tables(ctx, ctx.program(), "roadmanager::")
    r.en = lambda e, n: en(r.p, e, n)
    r.SUC, r.PRE = r.en("LinkType", "SUCCESSOR"), r.en("LinkType", "PREDECESSOR")
    r.ROAD, r.JUN = r.en("RoadLink::ElementType", "ELEMENT_TYPE_ROAD"), r.en("RoadLink::ElementType", "ELEMENT_TYPE_JUNCTION")
    r.START, r.END = (r.en("ContactPointType", x) for x in CONTACT)
    r.VIA = r.en("ContactPointType", "CONTACT_POINT_JUNCTION")
    names(r)
    junction(r)
    lanes(r)
    along(r)
    directly(r)
    connecting(r)
    search(r)
    moving(r)
    differences(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


def names(r):
    p, c, ns = r.p, r.ctx, r.ns
    by_key(c, p, ns + "OpenDrive::GetRoadById", "this.road_", "id_", (7, 3, 5))
    by_index(c, p, ns + "OpenDrive::GetRoadByIdx", "this.road_")
    by_key(c, p, ns + "OpenDrive::GetJunctionById", "this.junction_", "id_", (7, 3, 5))
    by_index(c, p, ns + "OpenDrive::GetJunctionByIdx", "this.junction_")
    by_index(c, p, ns + "LaneSection::GetLaneByIdx", "this.lane_")
    by_key(c, p, ns + "LaneSection::GetLaneById", "this.lane_", "id_", (2, 0, -1))
    by_index(c, p, ns + "Road::GetLaneSectionByIdx", "this.lane_section_")
    by_index(c, p, ns + "Road::GetGeometry", "this.geometry_")
    by_key(c, p, ns + "Road::GetLink", "this.link_", "type_", (r.SUC, r.PRE))
    by_key(c, p, ns + "Lane::GetLink", "this.link_", "type_", (r.SUC, r.PRE))


def connections(r, st, f, this="this"):
    st.env[loc(this + ".connection_.#size", f)] = ("c", len(CONNECTIONS))
    for i, (inc, con, links) in enumerate(CONNECTIONS):
        c = "C%d" % i
        st.env[loc("%s.connection_[%d]" % (this, i), f)] = ptr(c)
        st.env[loc(c + ".incoming_road_")] = ptr("R%d" % inc)
        st.env[loc(c + ".connecting_road_")] = ptr("R%d" % con)
        st.env[loc(c + ".contact_point_")] = ("c", r.START if i % 2 else r.END)
        st.env[loc("R%d.id_" % inc)] = ("c", inc)
        st.env[loc("R%d.id_" % con)] = ("c", con)
        st.env[loc("R%d.lane_section_.#size" % con)] = ("c", 1)
        st.env[loc("R%d.lane_section_[0]" % con)] = ptr("S%d" % con)
        st.env[loc("S%d.lane_.#size" % con)] = ("c", len(links))
        st.env[loc(c + ".lane_link_.#size")] = ("c", len(links))
        for j, (a, b) in enumerate(links):
            st.env[loc("%s.lane_link_[%d]" % (c, j))] = ptr("K%d%d" % (i, j))
            st.env[loc("K%d%d.from_" % (i, j))] = ("c", a)
            st.env[loc("K%d%d.to_" % (i, j))] = ("c", b)
            st.env[loc("S%d.lane_[%d]" % (con, j))] = ptr("L%d%d" % (i, j))
            st.env[loc("L%d%d.id_" % (i, j))] = ("c", b)
            st.env[loc("L%d%d.type_" % (i, j))] = ("c", 2)


def links_from(road, lane):
    """(connection, target lane)"""
    return [(i, b) for i, (inc, con, ls) in enumerate(CONNECTIONS) for a, b in ls if inc == road and a == lane]


def junction(r):
    def setup(st, f):
        connections(r, st, f)
    deep = dict(limit=40, inline=10)
    for i, (inc, con, links) in enumerate(CONNECTIONS):
        def one(st, f):
            fill(st, f, "this.lane_link_", [{"from_": a, "to_": b} for a, b in links])
        for a, b in dict(reversed(links)).items():
            r.value("connecting lane of %d in connection %d" % (a, i), "Connection::GetConnectingLaneId", one, {"$0": a}, b)
        r.value("connecting lane of a lane without link", "Connection::GetConnectingLaneId", one, {"$0": 9}, 0)
    for road in (1, 2, 3, 4, 12):
        cons = [i for i, c in enumerate(CONNECTIONS) if c[0] == road]
        r.value("connections from road %d" % road, "Junction::GetNoConnectionsFromRoadId", setup, {"$0": road}, len(cons), **deep)
        for k in range(len(cons) + 1):
            r.value("connecting road %d of road %d" % (k, road), "Junction::GetConnectingRoadIdFromIncomingRoadId", setup, {"$0": road, "$1": k},
                    CONNECTIONS[cons[k]][1] if k < len(cons) else UNDEF, **deep)
        for lane in (-1, -2, -3, 1):
            ls = links_from(road, lane)
            r.value("connections from road %d lane %d" % (road, lane), "Junction::GetNumberOfRoadConnections", setup, {"$0": road, "$1": lane}, len(ls), **deep)
            for k in range(len(ls) + 1):
                f, rs, t = r.runs("Junction::GetRoadConnectionByIdx", setup, {"$0": road, "$1": lane, "$2": k, "$3": 2}, **deep)
                what = "connection %d from road %d lane %d" % (k, road, lane)
                r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
                for x in rs:
                    i, b = ls[k] if k < len(ls) else (None, 0)
                    r.judge(what + ", road", f, member(x, "connecting_road_id_"), CONNECTIONS[i][1] if i is not None else UNDEF)
                    r.judge(what + ", lane", f, member(x, "connecting_lane_id_"), b)
                    if i is not None:
                        r.judge(what + ", from lane", f, member(x, "lane_id_"), lane)
                        r.judge(what + ", contact point", f, member(x, "contact_point_"), r.START if i % 2 else r.END)

    # the other end of a connecting road
    def watch(name, q, recv, vals, n):
        if name == "GetRoadById" and is_c(vals[-1]):
            return "", ptr("R%d" % vals[-1][1])
        return quiet(name, q, recv, vals, n)
    for pre, suc, inc in itertools.product((1, 2), (1, 2), (1, 2, 3)):
        for kind in itertools.product((r.ROAD, r.JUN), repeat=2):
            def setup(st, f):
                st.env[loc("$0", f)] = ptr("R9")
                st.env[loc("$1", f)] = ptr("R%d" % inc)
                st.env[loc("R%d.id_" % inc)] = ("c", inc)
                st.env[loc("R9.junction_")] = ("c", 4)
                fill(st, f, "$0.link_", [])
                st.env[loc("R9.link_.#size")] = ("c", 2)
                for j, (ty, el, k) in enumerate(((r.PRE, pre, kind[0]), (r.SUC, suc, kind[1]))):
                    st.env[loc("R9.link_[%d]" % j)] = ptr("K%d" % j)
                    st.env[loc("K%d.type_" % j)] = ("c", ty)
                    st.env[loc("K%d.element_id_" % j)] = ("c", el)
                    st.env[loc("K%d.element_type_" % j)] = ("c", k)
            if pre == suc:
                continue
            want = "@R%d" % (suc if pre == inc else pre) if kind == (r.ROAD, r.ROAD) and inc in (pre, suc) else None
            r.value("road at the other end (predecessor %d, successor %d, from %d, %s)" % (pre, suc, inc, kind), "Junction::GetRoadAtOtherEndOfConnectingRoad",
                    setup, None, want, watch=watch, limit=30, inline=8)


# lane sections of a road: start, {lane: (predecessor lane, successor lane)}, no entry: no link
SECTS = ((0, {1: (None, 2), -1: (-5, -2)}), (10, {2: (1, 3), -2: (-1, -3), -1: (None, None)}), (20, {3: (2, 6), -3: (-2, -6), -1: (-1, None)}))


def section(r, st, f, this, i):
    s, ls = SECTS[i]
    st.env[loc(this + ".s_", f)] = ("c", s)
    st.env[loc(this + ".length_", f)] = ("c", 10)
    ids = sorted(set(ls) | {0}, reverse=True)
    st.env[loc(this + ".lane_.#size", f)] = ("c", len(ids))
    for j, k in enumerate(ids):
        ln = "L%d%d" % (i, j)
        st.env[loc("%s.lane_[%d]" % (this, j), f)] = ptr(ln)
        st.env[loc(ln + ".id_")] = ("c", k)
        st.env[loc(ln + ".type_")] = ("c", 2)
        pre, suc = ls.get(k, (None, None))
        lk = [(t, v) for t, v in ((r.PRE, pre), (r.SUC, suc)) if v is not None]
        st.env[loc(ln + ".link_.#size")] = ("c", len(lk))
        for m, (t, v) in enumerate(lk):
            st.env[loc("%s.link_[%d]" % (ln, m))] = ptr("K%d%d%d" % (i, j, m))
            st.env[loc("K%d%d%d.type_" % (i, j, m))] = ("c", t)
            st.env[loc("K%d%d%d.id_" % (i, j, m))] = ("c", v)


def road(r, st, f, this="this"):
    st.env[loc(this + ".lane_section_.#size", f)] = ("c", len(SECTS))
    st.env[loc(this + ".length_", f)] = ("c", 30)
    for i in range(len(SECTS)):
        st.env[loc("%s.lane_section_[%d]" % (this, i), f)] = ptr("S%d" % i)
        section(r, st, f, "S%d" % i, i)


def follow(i, lane, fwd):
    """the lane in the next section; 0: there is none. A lane without link keeps its id"""
    if lane == 0 or lane not in SECTS[i][1]:
        return 0
    x = SECTS[i][1][lane][1 if fwd else 0]
    return lane if x is None else x


def lanes(r):
    for i, (s, ls) in enumerate(SECTS):
        for lane in list(ls) + [0, 9]:
            for ty, fwd in ((r.SUC, 1), (r.PRE, 0)):
                r.value("lane connected to lane %d of section %d, %s" % (lane, i, "ahead" if fwd else "behind"), "LaneSection::GetConnectingLaneId",
                        lambda st, f: section(r, st, f, "this", i), {"$0": lane, "$1": ty}, follow(i, lane, fwd), limit=30, inline=8)


def sect(s):
    return min(int(s // 10), 2)


def walk(a, lane, b):
    i, j = a, b
    while i != j and lane:
        lane = follow(i, lane, j > i)
        i += 1 if j > i else -1
    return lane


def along(r):
    deep = dict(limit=40, inline=10)
    for a, b in itertools.product((0, 5, 15, 20, 28, -1), (0, 3, 7, 10, 12, 17, 25, -1)):
        x, y = (30 if v == -1 else v for v in (a, b))
        for lane in SECTS[sect(x)][1]:
            r.value("lane at %s of lane %d at %s" % (b, lane, a), "Road::GetConnectedLaneIdAtS", lambda st, f: road(r, st, f),
                    {"$0": lane, "$1": float(a), "$2": float(b)}, walk(sect(x), lane, sect(y)), **deep)
    for s, i in itertools.product((2, 8, 13, 18, 24, 29), range(3)):
        for lane in SECTS[i][1]:
            w = walk(i, lane, sect(s))
            if w == 0 or w not in SECTS[sect(s)][1]:
                continue
            f, rs, t = r.runs("Road::GetLaneInfoByS", lambda st, f: road(r, st, f), {"$0": float(s), "$1": i, "$2": lane, "$4": 2}, watch=widths, **deep)
            r.ctx.check(bool(rs), "lane info at %s" % s, f.loc(), "does not return")
            for x in rs:
                what = "lane %d of section %d at %s" % (lane, i, s)
                r.judge(what + ", section", f, x.eng.read(x.st, ("f", ("d", ("init", loc("$3", f))), "lane_section_idx_")), sect(s))
                r.judge(what + ", lane", f, x.eng.read(x.st, ("f", ("d", ("init", loc("$3", f))), "lane_id_")), w)
                r.judge(what + ", result", f, x.ret, 0)


def widths(name, q, recv, vals, n):
    if name == "GetClosestLaneIdx":
        return "closest", ("c", 0)
    if name in ("GetCenterOffset", "GetLaneOffset"):
        return "", ("c", 0.0)
    return quiet(name, q, recv, vals, n)


def network(name, q, recv, vals, n):
    """roads R<id>, junctions J<id>"""
    if name == "GetRoadById" and vals and is_c(vals[-1]):
        return "", ptr("R%d" % vals[-1][1])
    if name == "GetJunctionById" and vals and is_c(vals[-1]):
        return "", ptr("J%d" % vals[-1][1])
    return quiet(name, q, recv, vals, n)


def link(r, st, f, at, i, ty, kind, el, cp, name="K"):
    st.env[loc("%s.link_[%d]" % (at, i), f)] = ptr("%s%d" % (name, i))
    put(st, "%s%d" % (name, i), type_=ty, element_type_=kind, element_id_=el, contact_point_type_=cp)


def put(st, at, **kw):
    for k, v in kw.items():
        st.env[loc("%s.%s" % (at, k))] = ("c", v)


def directly(r):
    pick = lambda f: len(f.params) == 4
    for kind, el, target, ty, fl in itertools.product((r.ROAD, r.JUN), (4, 13), (4, 13, 12), (r.SUC, r.PRE), (0, -1, -2, -3)):
        if kind == r.JUN and el != 4 or kind == r.ROAD and fl not in (0, -1):
            continue

        def setup(st, f):
            connections(r, st, f, "J4")
            st.env[("v", 0, "this")] = ptr("R1")
            st.env[loc("$0", f)] = ptr("R%d" % target)
            put(st, "R%d" % target, id_=target)
            st.env[loc("R1.link_.#size")] = ("c", 2)
            link(r, st, f, "R1", 0, r.PRE if ty == r.SUC else r.SUC, r.ROAD, 99, r.START)
            link(r, st, f, "R1", 1, ty, kind, el, r.END)
        if kind == r.ROAD:
            want, cp = el == target, r.END
        else:
            i = next((i for i, c in enumerate(CONNECTIONS) if c[0] == 1 and c[1] == target), None)
            want = i is not None and (fl == 0 or any(a == fl for a, b in CONNECTIONS[i][2]))
            cp = (r.START if i % 2 else r.END) if i is not None else None
        what = "road %d linked to %s %d by its %s, lane %d" % (target, "road" if kind == r.ROAD else "junction", el, "successor" if ty == r.SUC else "predecessor", fl)
        f, rs, t = r.runs("Road::IsDirectlyConnected", setup, {"$1": ty, "$3": fl}, watch=network, limit=40, inline=10, pick=pick)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for x in rs:
            r.judge(what, f, x.ret, want)
            if want and x.truth(("init", loc("$2", f))) is not False:
                r.judge(what + ", contact point", f, deref(2)(x), cp)


def connecting(r):
    """the lane a lane leads to on the road behind a link"""
    for ty, kind, target in itertools.product((r.SUC, r.PRE), (r.ROAD, r.JUN), (4, 11, 13, 15, 12)):
        end = 2 if ty == r.SUC else 0
        for lane in list(SECTS[end][1]) + [9]:
            def setup(st, f):
                road(r, st, f)
                connections(r, st, f, "J4")
                put(st, "this", id_=1)
                st.env[loc("this.id_", f)] = ("c", 1)
                st.env[loc("$0", f)] = ptr("K9")
                put(st, "K9", type_=ty, element_type_=kind, element_id_=4, contact_point_type_=r.START)
            if kind == r.ROAD:
                x = SECTS[end][1].get(lane, (None, None))[1 if ty == r.SUC else 0]
                want = (x or 0) if target == 4 else 0
            else:
                want = next((b for i, b in links_from(1, lane) if CONNECTIONS[i][1] == target), 0) if lane in SECTS[end][1] else 0
            r.value("lane of road %d connected to lane %d by the %s (%s)" % (target, lane, "successor" if ty == r.SUC else "predecessor", "road" if kind == r.ROAD else "junction"),
                    "Road::GetConnectingLaneId", setup, {"$1": lane, "$2": target}, want, watch=network, limit=40, inline=10)


def search(r):
    """one step of the path search: the road is left at the other end, with the lane that is reached there"""
    DIRECT = r.en("Junction::JunctionType", "DIRECT")
    for kind, cp, direct, end, (seen, open_) in itertools.product((r.ROAD, r.JUN), (r.START, r.END), (0, 1), ("suc", "pre", "none"), (
            ((), ()), (("K0", "K1"), ()), (("K1", "K0"), ()), (("K8",), ()), ((), (("K0", 140.0), ("K1", 140.0))), ((), (("K0", 120.0), ("K1", 120.0))))):
        if kind == r.ROAD and (direct or end == "none") or kind == r.JUN and cp == r.END:
            continue
        log = []

        def watch(name, q, recv, vals, n):
            if name == "GetConnectingLaneId":
                return "", ("c", -3)
            if name == "GetConnectedLaneIdAtS":
                return "lane " + ",".join(al.poly_str(v) for v in vals), ("c", -8)
            return network(name, q, recv, vals, n)

        def setup(st, f):
            for i, x in enumerate(("R5", "N0", "R6")):
                st.env[loc("$%d" % i, f)] = ptr(x)
            st.env[loc("N0.link")] = ptr("K7")
            put(st, "N0", dist=100.0)
            put(st, "K7", element_type_=kind, element_id_=4 if kind == r.JUN else 5, contact_point_type_=cp)
            put(st, "J4", id_=4, type_=DIRECT if direct else 0)
            put(st, "R5", id_=5, length_=30.0)
            put(st, "R6", id_=6)
            st.env[loc("R5.link_.#size")] = ("c", 2)
            back = 4 if direct else 6
            link(r, st, f, "R5", 0, r.PRE, r.JUN if direct else r.ROAD, back if end == "pre" else 77, r.START)
            link(r, st, f, "R5", 1, r.SUC, r.JUN if direct else r.ROAD, back if end == "suc" else 78, r.START)
            fill(st, f, "this.visited_", [{} for _ in seen], "V")
            fill(st, f, "this.unvisited_", [{"dist": d} for _, d in open_], "U")
            for i, k in enumerate(seen):
                st.env[loc("V%d.link" % i)] = ptr(k)
            for i, (k, _) in enumerate(open_):
                st.env[loc("U%d.link" % i)] = ptr(k)
        # entered at the end that is linked to where we come from
        entered = ("suc" if cp == r.END else "pre") if kind == r.ROAD else end
        what = "path search, %s entered by its %s" % ("road" if kind == r.ROAD else "direct junction road" if direct else "connecting road", entered)
        f, rs, t = r.runs("RoadPath::CheckRoad", setup, {"$3": -1}, watch=watch, limit=30, inline=8)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for x in rs:
            if entered == "none" or len(seen) == 2:
                r.judge(what + (", other end visited before" if seen else ""), f, x.ret, False)
                continue
            if open_:
                i = 1 if entered == "pre" else 0
                r.judge(what + ", distance of a known node", f, x.value("U%d.dist" % i), min(130.0, open_[i][1]))
                r.judge(what + ", distance of another node", f, x.value("U%d.dist" % (1 - i)), open_[1 - i][1])
                continue
            r.judge(what, f, x.ret, True)
            want = "lane -3,0,-1" if entered == "pre" else "lane -3,-1,0"
            r.ok(what + ", lane", f, x.ev == (want,), "follows the lane with %s instead of %s" % (x.ev, want))
            n = x.value("this.unvisited_[0]")
            if n is None or n[0] not in ("&", "new"):
                r.ctx.count("undetermined results")
                r.odd.append((what, n))
                continue
            g = lambda m: x.eng.read(x.st, ("f", loc_of(n), m))
            r.judge(what + ", distance", f, g("dist"), 130.0)
            r.judge(what + ", lane at the other end", f, g("fromLaneId"), -8)
            r.judge(what + ", link", f, g("link"), "@K1" if entered == "pre" else "@K0")
            r.judge(what + ", contact point", f, g("contactPoint"), r.END if entered == "pre" else r.START)
            r.judge(what + ", road", f, g("fromRoad"), "@R5")
            r.judge(what + ", previous", f, g("previous"), "@N0")


def moving(r):
    """moving across a link: to the linked lane, at the end of the road that is linked, mirrored when the direction changes"""
    for ty, kind, cp, lane in itertools.product((r.SUC, r.PRE), (r.ROAD, r.JUN), (r.START, r.END), (-1, 1)):
        def watch(name, q, recv, vals, n):
            if name == "SetLanePos":
                return "pos " + ",".join(al.poly_str(v) for v in vals), NULL
            if name == "GetNumberOfRoadConnections":
                return "", ("c", 1)
            if name == "SetTrackPos":
                return "track", NULL
            if name in ("GetRoute", "LinkType2Str"):
                return "", NULL
            if name == "GetRoadByIdx":
                return "", ptr("R1")
            if name == "GetAngleSum":
                return "turn", vals[0]
            return network(name, q, recv, vals, n)

        def setup(st, f):
            put(st, "R1", id_=1)
            st.env[loc("R1.lane_section_.#size")] = ("c", 1)
            st.env[loc("R1.lane_section_[0]")] = ptr("S0")
            st.env[loc("S0.lane_.#size")] = ("c", 1)
            st.env[loc("S0.lane_[0]")] = ptr("L0")
            put(st, "L0", id_=lane)
            st.env[loc("L0.link_.#size")] = ("c", 2)
            for i, (t, x) in enumerate(((r.PRE, 21), (r.SUC, 31))):
                st.env[loc("L0.link_[%d]" % i)] = ptr("K%d" % i)
                put(st, "K%d" % i, type_=t, id_=x * lane)
            st.env[loc("$0", f)] = ptr("K9")
            put(st, "K9", type_=ty, element_type_=kind, element_id_=5, contact_point_type_=cp if kind == r.ROAD else r.VIA)
            st.env[loc("this.lane_section_idx_", f)] = ("c", 0)
            st.env[loc("this.lane_idx_", f)] = ("c", 0)
            st.env[loc("this.offset_", f)] = ("c", 0.5)
            put(st, "R5", id_=5, length_=60.0)
            st.env[loc("R5.lane_section_.#size")] = ("c", 3)
            for k in range(3):
                st.env[loc("R5.lane_section_[%d]" % k)] = ptr("S5%d" % k)
                st.env[loc("S5%d.lane_.#size" % k)] = ("c", 1)
                st.env[loc("S5%d.lane_[0]" % k)] = ptr("L5%d" % k)
                put(st, "L5%d" % k, id_=41 * lane, type_=2)
            st.env[loc("J5.connection_.#size")] = ("c", 1)
            st.env[loc("J5.connection_[0]")] = ptr("C0")
            st.env[loc("C0.incoming_road_")] = ptr("R1")
            st.env[loc("C0.connecting_road_")] = ptr("R5")
            put(st, "C0", contact_point_=cp)
            st.env[loc("C0.lane_link_.#size")] = ("c", 1)
            st.env[loc("C0.lane_link_[0]")] = ptr("N0")
            put(st, "N0", from_=lane, to_=41 * lane)
        to = (31 if ty == r.SUC else 21) * lane if kind == r.ROAD else 41 * lane
        turn = (ty == r.PRE) == (cp == r.START)
        at = "0" if cp == r.START else "60"
        want = "pos 5,%d,%s,%s" % (to, at, "-1/2" if turn else "1/2")
        what = "moving to the %s (%s), its %s, lane %d" % ("successor" if ty == r.SUC else "predecessor", "road" if kind == r.ROAD else "junction", "start" if cp == r.START else "end", lane)
        f, rs, t = r.runs("Position::MoveToConnectingRoad", setup, {"$2": -1.0}, watch=watch, limit=40, inline=10)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for x in rs:
            ev = [e for e in x.ev if e.startswith("pos")]
            r.ctx.count("cases analysed")
            r.ok(what, f, len(ev) == 1 and ",".join(ev[0].split(",")[:4]) == want, "sets the position to %s instead of %s" % (ev, want))
            r.ok(what + ", direction", f, ("turn" in x.ev) == turn, "relative heading %sturned" % ("not " if turn else ""))
            sec = ev[0].split(",")[4] if ev and ev[0].count(",") == 4 else None
            if sec is not None and kind == r.ROAD:
                r.ok(what + ", section", f, sec == ("0" if cp == r.START else "2"), "starts the search at section %s" % sec)


def differences(r):
    """lane of another position, relative to where the lane of this position leads to"""
    for kind, cp, fromlane, ty in itertools.product((r.ROAD, r.JUN), (r.START, r.END), (-2, 3), (r.SUC, r.PRE)):
        def watch(name, q, recv, vals, n):
            if name == "Calculate":
                at = ("f", Trace.last[0], "visited_")
                up = [(("f", at, "#size"), ("c", 1)), (("i", at, ("c", 0)), ptr("N0")), (("f", at[1], "direction_"), ("c", 1))]
                if Trace.last[1] and Trace.last[1][0][0] == "L":
                    up.append((Trace.last[1][0][1], ("c", 50.0)))
                return "", ("c", 0), up
            if name == "GetConnectingLaneId":
                return "", vals[1] if not is_c(vals[1]) else ("c", vals[1][1] * 10)
            if name == "GetConnectedLaneIdAtS" and all(is_c(v) for v in vals):
                # a different lane wherever one looks from and to
                return "", ("c", vals[0][1] * 1000 + (100 if vals[0][1] > 0 else -100) * (int(vals[1][1]) + 2) + (1 if vals[2][1] == 12.0 else 2))
            if name in ("IsSuccessor", "IsPredecessor", "IsDirectlyConnected"):
                ok = name == "IsDirectlyConnected" or (name == "IsSuccessor") == (ty == r.SUC)
                return "", ("c", int(ok)), ([(loc_of(vals[1]), ("c", cp))] if ok and loc_of(vals[1]) else [])
            if name == "GetRoadById":
                return "", ptr("R5")
            if name == "getRelativeDistance":
                return "", ("c", 0.0)
            return network(name, q, recv, vals, n)

        def setup(st, f):
            st.env[loc("$0", f)] = ptr("P1")
            put(st, "P1", lane_id_=-4, track_id_=5, s_=12.0, t_=-6.0, h_relative_=0.0)
            for k, v in (("lane_id_", -1), ("t_", -2.0), ("h_relative_", 0.0), ("s_", 3.0), ("track_id_", 6)):
                st.env[loc("this." + k, f)] = ("c", v)
            st.env[loc("N0.link")] = ptr("K7")
            st.env[loc("N0.fromRoad")] = ptr("R6")
            put(st, "N0", fromLaneId=fromlane, contactPoint=r.END if ty == r.SUC else r.START)
            put(st, "K7", type_=ty, element_type_=kind, element_id_=4 if kind == r.JUN else 5, contact_point_type_=cp if kind == r.ROAD else r.VIA)
            put(st, "R5", id_=5)
            put(st, "R6", id_=6)
        what = "relative lane, path leaves a road at its %s into the %s of a %s, lane %d" % ("end" if ty == r.SUC else "start", "start" if cp == r.START else "end", "road" if kind == r.ROAD else "connecting road", fromlane)
        lane = fromlane * 10
        lane = lane * 1000 + (100 if lane > 0 else -100) * ((0 if cp == r.START else -1) + 2) + 1
        d = -4 - lane
        same = lane < 0
        r.values(what, "Position::Delta", setup, {"$2": 1, "$3": 1000.0}, {
            "lanes": (lambda x: read(x, 1, "dLaneId"), d if same else (abs(d) - 1) * (1 if d > 0 else -1)),
            "opposite lane": (lambda x: read(x, 1, "dOppLane"), not same),
            "same direction": (lambda x: read(x, 1, "dDirection"), cp == r.START),
            "lateral distance": (lambda x: read(x, 1, "dt"), -4.0 if same else -8.0),
            "distance": (lambda x: read(x, 1, "ds"), 50.0)}, watch=watch, limit=40, inline=10)
    # the lane at either end of the start road is where the lane of the position leads to
    for h, both in itertools.product((0.0, 3.1), (0, 1)):
        def watch(name, q, recv, vals, n):
            if name == "GetConnectedLaneIdAtS":
                return "lane " + ",".join(al.poly_str(v) for v in vals), ("c", -8 if is_c(vals[2]) and vals[2][1] < 0 else -9)
            if name == "GetOpenDrive":
                return "", ptr("O0")
            return network(name, q, recv, vals, n)

        def setup(st, f):
            st.env[loc("this.startPos_", f)] = ptr("P0")
            st.env[loc("this.targetPos_", f)] = ptr("P1")
            put(st, "P0", track_id_=5, lane_id_=-1, s_=10.0, h_relative_=h)
            put(st, "P1", track_id_=5, lane_id_=-1, s_=20.0, h_relative_=0.0)
            put(st, "R5", id_=5, length_=30.0)
            st.env[loc("R5.link_.#size")] = ("c", 2)
            link(r, st, f, "R5", 0, r.PRE, r.ROAD, 7, r.END)
            link(r, st, f, "R5", 1, r.SUC, r.ROAD, 8, r.START)
            fill(st, f, "this.visited_", [])
            fill(st, f, "this.unvisited_", [])
        f, rs, t = r.runs("RoadPath::Calculate", setup, {"$1": both, "$2": 1000.0}, watch=watch, limit=40, inline=10)
        what = "path search %s, heading %s" % ("in both directions" if both else "ahead", h)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        want = [("K0", r.START, -9, 10.0), ("K1", r.END, -8, 20.0)]
        want = want if both else want[1:] if not h else want[:1]
        for x in rs:
            lanes = {e for e in x.ev if e.startswith("lane")}
            w = {"lane -1,10,%s" % ("-1" if e[1] == r.END else "0") for e in want}
            r.ok(what + ", lanes", f, lanes == w, "follows %s instead of %s" % (sorted(lanes), sorted(w)))
            r.judge(what + ", nodes", f, x.value("this.unvisited_.#size"), len(want))
            for i, (k, cp, lane, dist) in enumerate(want):
                n = x.value("this.unvisited_[%d]" % i)
                if n is None or n[0] not in ("&", "new"):
                    r.ctx.count("undetermined results")
                    r.odd.append((what, n))
                    continue
                g = lambda m: x.eng.read(x.st, ("f", loc_of(n), m))
                r.judge(what + ", link %d" % i, f, g("link"), "@" + k)
                r.judge(what + ", contact point %d" % i, f, g("contactPoint"), cp)
                r.judge(what + ", lane %d" % i, f, g("fromLaneId"), lane)
                r.judge(what + ", distance %d" % i, f, g("dist"), dist)
                r.judge(what + ", road %d" % i, f, g("fromRoad"), "@R5")


def read(x, i, m):
    l = ("d", ("init", loc("$%d" % i, x.fn)))
    return x.eng.read(x.st, ("f", l, m))
