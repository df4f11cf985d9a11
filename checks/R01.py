"""Recordings: what is written to a .dat file is what was simulated, and what is read is what was written.

The decision tables of the writer (for each quantity: written exactly when it changed, with its current value, the value
kept for the next comparison, behind the time stamp and the id of its object), the byte layout of every packet in writer
and reader, the effect of each packet in the reader, and the look up of recorded values are derived from the code.
"""
import algebra as al
from extract import Broken
from trace import Trace, explore
from flow import NULL, is_c
from util import base_type

ASSUMPTIONS = ["quantities change one at a time in the writer tables; the comparisons of different quantities are separate",
               "writer and reader run on machines of the same byte order and structure layout (memory images are exchanged)"]
C = ("d", ("init", ("g", "CACHE")))
W = "Dat::DatWriter::"
R = "scenarioengine::Replay::"


def sub(l, path):
    for x in path.split("."):
        if x == "*":
            l = ("d", ("init", l))
        elif x.endswith("]"):
            a, _, i = x[:-1].partition("[")
            l = ("i", ("f", l, a) if a else l, ("c", int(i)))
        else:
            l = ("f", l, x)
    return l


class T(Trace):
    limit = 14
    found = 1

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        vals = [eng.aval(st, a) for a in args]
        if name in ("c_str", "data", "str") and recv is not None and is_c(eng.read(st, recv)):
            return [(st, eng.read(st, recv))]
        if name in ("size", "length") and "basic_string" in q and recv is not None and is_c(eng.read(st, recv)):
            return [(st, ("c", len(str(eng.read(st, recv)[1]))))]
        if name == "empty" and "basic_string" in q and recv is not None and is_c(eng.read(st, recv)):
            return [(st, ("c", int(not eng.read(st, recv)[1])))]
        if name in ("abs", "fabs") and is_c(vals[0]):
            return [(st, ("c", abs(vals[0][1])))]
        if name in ("operator==", "operator!=", "compare") and all(is_c(v) for v in vals):
            if recv is not None:
                vals = [eng.read(st, recv)] + vals
            if len(vals) == 2 and all(is_c(v) for v in vals):
                return [(st, ("c", int((vals[0][1] == vals[1][1]) == (name == "operator=="))))]
        if name in ("find", "count", "contains") and "map" in q:
            return [(st, ("obj", "FOUND", 0, 0) if name == "find" else ("c", self.found))]
        if name in ("operator==", "operator!=") and "__detail" in q and "pair" in n.fn.nodes[n.c[0]].t:
            return [(st, ("c", int((name == "operator==") != self.found)))]
        if name in ("operator->", "operator*") and "_iterator" in q and "pair" in q:
            return [(st, ("&", C))]
        if name in ("at", "operator[]") and "unordered_map" in q and "ObjState" in q:
            return [(st, ("&", ("f", C, "second")))]
        if q == W + "Write":
            k = RID.get(int(vals[0][1])) if is_c(vals[0]) else "?"
            ev = "write %s %s" % (k, "|".join(content(eng, st, a, v, n, i) for i, (a, v) in enumerate(zip(args, vals)) if i))
            st.ev = st.ev + (ev,)
            return [(st, NULL)]
        return super().call(eng, st, n, q, recv, args)


RID = {}


def content(eng, st, arg, v, n, i):
    """the members of a structure handed over, or the value itself"""
    t = base_type(n.fn.nodes[n.c[i + 1]].t)
    r = eng.p.recs.get(t)
    if v[0] == "agg":
        return flat(v)
    if r is None or arg[0] != "L":
        return flat(v)
    return "|".join(flat(eng.read(st, ("f", arg[1], x["n"]))) for x in r.fields)


def quiet(name, q, r, vals, n):
    if "ogger" in q or name in ("format", "Log"):
        return "", NULL
    return None


def packets(p):
    for q in p.enums:
        if q.endswith("PacketId"):
            return {k.rsplit("::", 1)[-1]: v for k, v in p.enums[q] if not k.endswith("PACKET_ID_SIZE")}
    raise Broken("packet ids not found")


#            packet, cached value, source value in the object
OBJECT = [("SPEED", "speed_", "speed_")]
OBJECT += [("POSE", "pose_." + a, "pos_.%s_" % a) for a in "xyzhpr"]
OBJECT += [("BOUNDING_BOX", "bounding_box_." + a, "boundingbox_.center_.%s_" % a) for a in "xyz"]
OBJECT += [("BOUNDING_BOX", "bounding_box_." + a, "boundingbox_.dimensions_.%s_" % a) for a in ("length", "width", "height")]
OBJECT += [("OBJ_GID", "obj_gid_", "g_id_"), ("MODEL_ID", "model_id_", "model_id_"), ("OBJ_TYPE", "obj_type_", "type_"), ("OBJ_CATEGORY", "obj_category_", "category_"),
           ("CTRL_TYPE", "ctrl_type_", "CTRL"), ("WHEEL_ANGLE", "wheel_angle_", "wheel_angle_"), ("WHEEL_ROT", "wheel_rot_", "wheel_rot_"), ("SCALE_MODE", "scale_mode_", "scaleMode_"),
           ("VISIBILITY_MASK", "visibility_mask_", "visibilityMask_"), ("NAME", "name_", "name_"), ("ROAD_ID", "road_id_", "pos_.track_id_"), ("LANE_ID", "lane_id_", "pos_.lane_id_"),
           ("POS_OFFSET", "pos_offset_", "pos_.offset_"), ("POS_T", "pos_t_", "pos_.t_"), ("POS_S", "pos_s_", "pos_.s_"), ("REFPOINT_X_OFFSET", "refpoint_x_offset_", "refpoint_x_offset_"),
           ("MODEL_X_OFFSET", "model_x_offset_", "model3d_x_offset_"), ("OBJ_MODEL3D", "model3d_", "model3d_full_path_"), ("BB_COLOR", "bb_color_", "color_")]
LIGHT = [("light_type", "type"), ("light_mode", "mode"), ("r", "rgb[0]"), ("g", "rgb[1]"), ("b", "rgb[2]"), ("e_r", "emission[0]"), ("e_g", "emission[1]"), ("e_b", "emission[2]")]
TEXT = ("NAME", "OBJ_MODEL3D", "BB_COLOR")
NLIGHT = 2


def run(ctx):
    p = ctx.program()
    ids = packets(p)
    RID.update({v: k for k, v in ids.items()})
    objects(ctx, p, ids)
    frame(ctx, p, ids)
    deleted(ctx, p, ids)
    step(ctx, p, ids)
    others(ctx, p, ids)
    bytes_(ctx, p, ids)
    reader(ctx, p, ids)
    entries(ctx, p)
    lookup(ctx, p)


def objects(ctx, p, ids):
    f = p.q1(W + "WriteObjectStatesToDat")
    pv = f.params[0]
    OBJS = ("d", ("init", ("v", 0, pv, f.vars[pv].name)))
    OBJ = ("d", ("init", ("i", OBJS, NULL)))
    bit = None
    for q, e in p.enums.items():
        for k, v in e:
            if q.endswith("DirtyBit") and k.rsplit("::", 1)[-1] == "LIGHT_STATE":
                bit = v
    if bit is None:
        raise Broken("dirty bit of the light state not found")

    def base(i, pk):
        return "s%d" % i if pk in TEXT else 10.0 + i if pk in ("SPEED", "POSE", "BOUNDING_BOX") else 10 + i

    cases = [None] + [("obj", i) for i in range(len(OBJECT))] + [("outline", 0)] + [("light", i) for i in range(1, len(LIGHT))] + [("light clean", 3)]
    for found in (1, 0):
        for case in cases if found else [None]:
            vals = {}
            ctrl = {}

            def watch(name, q, r, v, n):
                s = [al.poly_str(x) for x in v]
                if q.startswith("DirtyBits::") and name in ("Get", "Check"):
                    return "", ("c", bit if case and case[0] == "light" else 0)
                if name in ("ResetCurrentIds", "CheckDeletedObjects"):
                    return name, NULL
                if name == "insert" and r and r.endswith("current_ids_"):
                    return "seen %s" % s[0], NULL
                if name == "GetControllerTypeActiveOnDomain":
                    return ("" if s and s[0] == str(dict_enum(p, "ControlDomains", "DOMAIN_LONG")) else "domain %s" % s), ("c", ctrl["v"])
                return quiet(name, q, r, v, n)

            def more(st):
                c2 = ("f", C, "second")
                for i, (pk, a, b) in enumerate(OBJECT):
                    old = base(i, pk)
                    new = old
                    if case == ("obj", i):
                        new = old + "x" if pk in TEXT else old + 100
                        if pk == "BB_COLOR":
                            old = ""
                    vals[a] = new
                    st.env[sub(c2, a)] = ("c", old)
                    if b == "CTRL":
                        ctrl["v"] = new
                    else:
                        st.env[sub(OBJ, b)] = ("c", new)
                st.env[sub(c2, "outline_2d_.#size")] = NULL
                st.env[sub(OBJ, "outline_2d_.#size")] = ("c", 4 if case == ("outline", 0) else 0)
                st.env[sub(OBJ, "id_")] = ("c", 7)
                st.env[sub(c2, "light_state_.#size")] = ("c", NLIGHT)
                for k in range(NLIGHT):
                    for i, (a, b) in enumerate(LIGHT):
                        v = k * 50 + i
                        st.env[sub(c2, "light_state_[%d].%s" % (k, a))] = ("c", v)
                        d = 500 if case and case[0].startswith("light") and case[1] == i and k == 1 else 0
                        st.env[sub(OBJ, "vehLghtStsList[%d].%s" % (k, b))] = ("c", v + d)
                st.env[sub(("d", ("init", ("v", 0, "this"))), "object_id_written_")] = ("c", 1)
            t = T(watch)
            t.found = found
            pk = OBJECT[case[1]][0] if case and case[0] == "obj" else "SHAPE_2D_OUTLINE" if case and case[0] == "outline" else "LIGHT_STATE" if case and case[0] == "light" else None
            if found == 0:
                # a new object starts from an entry that differs from every state
                t.found = 0
            rs = explore(p, f, t, {"$0.#size": 1}, more=more)
            what = "object, %s" % ("nothing changed" if case is None else OBJECT[case[1]][2] + " changed" if case[0] == "obj" else "outline added" if case[0] == "outline" else "light %s changed" % LIGHT[case[1]][1])
            if not found:
                what = "first record of an object"
            rs = [r for r in rs if any(e.startswith("seen") for e in r.ev)]
            ctx.check(bool(rs), what, f.loc(), "objects are not gone through")
            ctx.count("writer cases")
            for r in rs:
                ev = [e for e in r.ev if e.startswith("write")]
                ctx.check("seen 7" in r.ev, what + ": noted", f.loc(), "the object is not noted as present")
                ctx.check(r.const("this.current_object_id_") == 7, what + ": id", f.loc(), "the id written with the packets is not that of the object")
                ctx.check(r.const("this.object_id_written_") == 0, what + ": next object", f.loc(), "the packets of the next object are not preceded by its id")
                ctx.check(bool(r.ev) and r.ev[-1] == "CheckDeletedObjects" and r.ev[0] == "ResetCurrentIds", what + ": removed objects", f.loc(), "removed objects are not looked for after the objects present (%s)" % (r.ev,))
                ctx.check(not any(e.startswith("domain") for e in r.ev), what + ": controller", f.loc(), "controller of the wrong domain")
                if not found:
                    continue
                if pk is None:
                    if case is None:
                        ctx.check(not ev, what + ": silent", f.loc(), "unchanged values are written: %s" % ev)
                    continue
                got = [e for e in ev if e.split(" ")[1] == pk]
                ctx.check(len(got) == 1, what + ": written", f.loc(), "%d %s packets are written" % (len(got), pk))
                ctx.check(len(ev) == len(got), what + ": nothing else", f.loc(), "also written: %s" % [e for e in ev if e not in got])
                if not got:
                    continue
                body = got[0].split(" ", 2)[2]
                if case[0] == "obj":
                    fs = [(a, b) for k, a, b in OBJECT if k == pk]
                    if pk in TEXT:
                        want = "%d|'%s'" % (len(vals[fs[0][0]]), vals[fs[0][0]])
                    else:
                        want = "|".join(num(vals[a]) for a, b in fs)
                    ctx.check(body == want, what + ": value", f.loc(), "%s is written as %s, not %s" % (pk, body, want))
                    for a, b in fs:
                        v = r.eng.read(r.st, sub(("f", C, "second"), a))
                        ctx.check(is_c(v) and v[1] == vals[a], what + ": remembered", f.loc(), "the value compared at the next step is not the one written")
                elif case[0] == "light":
                    want = "|".join(num(50 + i + (500 if i == case[1] else 0)) for i in range(len(LIGHT)))
                    ctx.check(body == want, what + ": value", f.loc(), "the light is written as %s, not %s" % (body, want))


def dict_enum(p, hint, name):
    for q, e in p.enums.items():
        if hint in q:
            for k, v in e:
                if k.rsplit("::", 1)[-1] == name:
                    return v
    raise Broken("enumerator %s not found" % name)


def num(v):
    return "%g" % v


def flat(v):
    if v[0] == "agg":
        return "|".join(flat(x) for _, x in v[1])
    if is_c(v):
        return "'%s'" % v[1] if isinstance(v[1], str) else num(v[1])
    return al.poly_str(v)


GLOBAL = ("END_OF_SCENARIO", "DT", "TIMESTAMP", "TRAFFIC_LIGHT", "ELEM_STATE_CHANGE", "ENVIRONMENT")


def frame(ctx, p, ids):
    """time stamp and object id precede the data they qualify, once"""
    fs = [f for f in p.q(W + "Write") if not any(base_type(f.vars[x].t) in ("int", "double") for x in f.params[1:]) and len(f.params) == 2]
    if not fs:
        raise Broken("packet writer not found")
    f = fs[0]

    class F(Trace):
        limit = 14

        def call(self, eng, st, n, q, recv, args):
            if q == W + "WritePacket":
                l = args[0][1]
                v = eng.read(st, ("f", ("f", l, "header"), "id"))
                d = eng.read(st, ("f", ("f", l, "header"), "data_size"))
                st.ev = st.ev + ("packet %s" % (RID.get(v[1]) if is_c(v) else "?"), "size %s" % al.pstr(al.poly(d)))
                return [(st, NULL)]
            if q.endswith("::resize") and recv is not None:
                st.ev = st.ev + ("room %s" % al.pstr(al.poly(eng.aval(st, args[0]))),)
                return [(st, NULL)]
            if q == W + "SerializedSize":
                return [(st, ("init", ("g", "SIZE<%s>" % al.poly_str(eng.aval(st, args[0])))))]
            if q == W + "WriteToBuffer":
                st.ev = st.ev + ("data %s" % al.poly_str(eng.aval(st, args[1])),)
                return [(st, NULL)]
            return super().call(eng, st, n, q, recv, args)
    for name, v in sorted(ids.items()):
        if name in ("OBJ_ID", "TIMESTAMP"):
            continue
        for ow in (0, 1):
            for tw in (0, 1):
                what = "%s packet, object id %s, time stamp %s" % (name, "written" if ow else "pending", "written" if tw else "pending")
                rs = explore(p, f, F(quiet), {"$0": v, "this.object_id_written_": ow, "this.timestamp_written_": tw})
                ctx.check(bool(rs), what, f.loc(), "not written")
                ctx.count("packet framings")
                isobj = name not in GLOBAL
                want = []
                if not tw and name != "END_OF_SCENARIO":
                    want += ["packet TIMESTAMP"]
                if not ow and isobj:
                    want += ["packet OBJ_ID"]
                want += ["packet " + name]
                arg = f.vars[f.params[1]].name
                for r in rs:
                    got = [e for e in r.ev if e.startswith("packet")]
                    ctx.check(got == want, what, f.loc(), "the file gets %s instead of %s" % (got, want))
                    data = {}
                    cur = []
                    for e in r.ev:
                        k, _, x = e.partition(" ")
                        if k == "data":
                            cur.append(x)
                        elif k == "packet":
                            data[x] = cur
                            cur = []
                    exp = {"TIMESTAMP": ["this.simulation_time_"], "OBJ_ID": ["this.current_object_id_"], name: [arg]}
                    for k, x in data.items():
                        ctx.check(x == exp.get(k), "%s: content of %s" % (what, k), f.loc(), "%s carries %s instead of %s" % (k, x, exp.get(k)))
                    sizes = [e[5:] for e in r.ev if e.startswith("size")]
                    rooms = [e[5:] for e in r.ev if e.startswith("room")]
                    ctx.check(sizes == ["SIZE<%s>" % exp[k][0] for k in data] and rooms == sizes, what + ": size", f.loc(), "sizes in the headers are %s, buffers %s" % (sizes, rooms))
                    ctx.check(r.const("this.timestamp_written_") == int(tw or name != "END_OF_SCENARIO"), what + ": time flag", f.loc(), "the time stamp is not written once per step")
                    ctx.check(r.const("this.object_id_written_") == int(ow or isobj), what + ": id flag", f.loc(), "the object id is not written once per object")
    # the raw packet
    f = p.q1(W + "WritePacket")

    def watch(name, q, r, v, n):
        if name == "write":
            return "write %s %s" % (al.poly_str(v[0]), al.poly_str(v[1])), NULL
        return quiet(name, q, r, v, n)
    arg = f.vars[f.params[0]].name
    for r in explore(p, f, Trace(watch), {"$0.header.data_size": 8, "$0.data.#size": 8}):
        ws = [e for e in r.ev if e.startswith("write")]
        ok = len(ws) == 2 and arg + ".header" in ws[0] and arg + ".data" in ws[1] and ws[1].endswith(" 8")
        ctx.check(ok, "raw packet", f.loc(), "the file gets %s" % ws)


def deleted(ctx, p, ids):
    f = p.q1(W + "CheckDeletedObjects")
    for gone in (0, 1):
        class D(T):
            def call(self, eng, st, n, q, recv, args):
                name = q.rsplit("::", 1)[-1]
                r = al.path(recv) if recv is not None else ""
                if q == W + "Write":
                    v = eng.read(st, ("f", ("d", ("init", ("v", 0, "this"))), "current_object_id_"))
                    st.ev = st.ev + ("write %s of %s" % (RID.get(eng.aval(st, args[0])[1]), al.poly_str(v)),)
                    return [(st, NULL)]
                if r.endswith("current_ids_") and name in ("count", "contains"):
                    return [(st, ("c", 1 - gone))]
                if r.endswith("current_ids_") and name in ("find",):
                    return [(st, ("it", recv, ("c", 0)) if not gone else ("it", recv, eng.read(st, ("f", recv, "#size"))))]
                if r.endswith("state_") and name == "erase":
                    st.ev = st.ev + ("forget %s" % al.poly_str(eng.aval(st, args[0])),)
                    return [(st, NULL)]
                if r.endswith("previous_ids_") and name in ("operator=", "swap"):
                    st.ev = st.ev + ("keep %s" % (al.path(args[0][1]) if args[0][0] == "L" else al.poly_str(args[0][1])),)
                    return [(st, NULL)]
                return super().call(eng, st, n, q, recv, args)
        st0 = ("i", ("f", ("d", ("init", ("v", 0, "this"))), "previous_ids_"), NULL)

        def more(st):
            st.env[st0] = ("c", 5)
        what = "object %s since the last step" % ("removed" if gone else "still there")
        rs = explore(p, f, D(quiet), {"this.previous_ids_.#size": 1, "this.object_id_written_": 0}, more=more)
        ctx.check(bool(rs), what, f.loc(), "not handled")
        for r in rs:
            ev = [e for e in r.ev if not e.startswith("keep")]
            ctx.check(sorted(ev) == (["forget 5", "write OBJ_DELETED of 5"] if gone else []), what, f.loc(), "leads to %s" % (ev,))
            ctx.check(any(e.startswith("keep") and "current_ids_" in e for e in r.ev), what + ": memory", f.loc(), "the objects present are not remembered for the next step")
            if gone:
                ctx.check(r.const("this.object_id_written_") == 0, what + ": next object", f.loc(), "the next object is written without its id")


def step(ctx, p, ids):
    f = p.q1("scenarioengine::ScenarioPlayer::WriteStatesToFile")
    for opened in (0, 1):
        def watch(name, q, r, v, n):
            if name == "IsWriteFileOpen":
                return "", ("c", opened)
            if q.startswith(W) and name.endswith("ToDat"):
                return name + " " + " ".join(al.poly_str(x) for x in v), NULL
            return quiet(name, q, r, v, n)
        for r in explore(p, f, Trace(watch), {"this.dat_writer_.timestamp_written_": 1}):
            what = "step with recording %s" % ("on" if opened else "off")
            got = sorted(e.split(" ")[0] for e in r.ev if e)
            want = sorted(["WriteDtToDat", "WriteEnvironmentToDat", "WriteTrafficLightsToDat", "WriteStoryBoardStateChangesToDat", "WriteObjectStatesToDat"]) if opened else []
            ctx.check(got == want, what, f.loc(), "records %s instead of %s" % (got, want))
            if opened:
                ctx.check(r.const("this.dat_writer_.timestamp_written_") == 0, what + ": time", f.loc(), "the packets of the next step are not preceded by its time")
                ctx.check(any("entities_.object_" in e for e in r.ev if e.startswith("WriteObject")), what + ": objects", f.loc(), "other than the objects of the scenario are recorded")
                for a, b in (("simulation_time_", 0), ("dt_", 1)):
                    v = r.value("this.dat_writer_." + a)
                    ctx.check(al.poly_str(v) == f.vars[f.params[b]].name, what + ": " + a, f.loc(), "the recorded %s is %s" % (a, al.poly_str(v)))
    # recording is part of every step, behind the update and before the changes of the storyboard are dropped
    f = p.q1("scenarioengine::ScenarioPlayer::ScenarioFrame")

    def watch2(name, q, r, v, n):
        if q == "scenarioengine::ScenarioEngine::step":
            return "step", NULL
        if name in ("prepareGroundTruth", "ClearStateChanges"):
            return name, NULL
        if name == "WriteStatesToFile":
            return "record " + ",".join(al.poly_str(x) for x in v), NULL
        if name in ("Lock", "Unlock", "UpdateCSV_Log", "UpdateGhostMode", "GetObjectById") or q == "<indirect>":
            return "", NULL
        return quiet(name, q, r, v, n)
    dt = f.vars[f.params[0]].name
    for r in explore(p, f, Trace(watch2)):
        ev = [e.split(" ")[0] for e in r.ev if e]
        ctx.check(ev.count("record") == 1 and ev.index("step") < ev.index("prepareGroundTruth") < ev.index("record"), "record of a step", f.loc(), "steps are %s" % ev)
        ctx.check("ClearStateChanges" not in ev or ev.index("record") < ev.index("ClearStateChanges"), "state changes of a step", f.loc(), "state changes are dropped before they are recorded")
        rec = [e for e in r.ev if e.startswith("record")]
        ctx.check(bool(rec) and rec[0].endswith("," + dt) and "imulationTime" in rec[0], "time of a step", f.loc(), "recorded with %s" % rec)


def others(ctx, p, ids):
    # step size
    f = p.q1(W + "WriteDtToDat")
    for old, new in ((0.1, 0.1), (0.1, 0.2)):
        for r in explore(p, f, T(quiet), {"this.object_state_cache_.dt_": old, "this.dt_": new}):
            what = "step size %g after %g" % (new, old)
            ctx.check(list(r.ev) == (["write DT %g" % new] if old != new else []), what, f.loc(), "writes %s" % (r.ev,))
            ctx.check(r.const("this.object_state_cache_.dt_") == new, what + ": remembered", f.loc(), "the step size compared next time is not the one written")
    # environment
    f = p.q1(W + "WriteEnvironmentToDat")
    G = {"GetSunIntensityFactor": "sun_intensity_factor", "GetFractionalCloudStateFactor": "fractional_cloudstate_factor", "GetFogVisibilityRangeFactor": "fog_visibilityrange_factor"}
    base = {"visibility_range": 10, "fractional_cloudstate_factor": 11, "sun_intensity_factor": 12, "fog_visibilityrange_factor": 13, "friction_scale_factor": 14}
    order = [x["n"] for x in p.fields("Dat::Environment")]
    for ch in [None] + sorted(base):
        now = dict(base)
        if ch:
            now[ch] += 100
        if ch == "visibility_range":
            now["fog_visibilityrange_factor"] += 100        # derived from the range
        if ch == "fog_visibilityrange_factor":
            continue

        class E(T):
            def call(self, eng, st, n, q, recv, args):
                name = q.rsplit("::", 1)[-1]
                if name in G:
                    return [(st, ("c", now[G[name]]))]
                if name == "GetFog":
                    return [(st, ("agg", (("visibility_range", ("c", now["visibility_range"])),)))]
                if name == "GetRoadCondition":
                    return [(st, ("agg", (("friction_scale_factor", ("c", now["friction_scale_factor"])),)))]
                if name.startswith("Is") and name.endswith(("Set", "IsEnvironment")):
                    return [(st, ("c", 1))]
                return super().call(eng, st, n, q, recv, args)
        c = {"this.object_state_cache_.environment_." + k: v for k, v in base.items()}
        for r in explore(p, f, E(quiet), c):
            what = "environment, %s" % (ch + " changed" if ch else "unchanged")
            want = ["write ENVIRONMENT " + "|".join("%g" % now[k] for k in order)] if ch else []
            ctx.check(list(r.ev) == want, what, f.loc(), "writes %s instead of %s" % (list(r.ev), want))
            for k in base:
                ctx.check(r.const("this.object_state_cache_.environment_." + k) == now[k], what + ": remembered", f.loc(), "%s compared next time is not the one written" % k)
    # lamps
    f = p.q1(W + "WriteTrafficLightsToDat")
    for old, new in ((1, 1), (1, 2)):
        class L(T):
            def call(self, eng, st, n, q, recv, args):
                name = q.rsplit("::", 1)[-1]
                for k, v in (("GetHasOSCAction", 1), ("GetNrLamps", 1), ("IsDirty", 1), ("GetMode", new)):
                    if name == k:
                        return [(st, ("c", v))]
                if name == "GetId":
                    return [(st, ("c", 30 if "Lamp" in q else 40))]
                if name in ("try_emplace", "emplace", "insert"):
                    return [(st, ("agg", (("first", ("obj", "IT", 0, 0)), ("second", NULL))))]
                return super().call(eng, st, n, q, recv, args)

        def more(st):
            st.env[sub(C, "second.lamp_mode")] = ("c", old)
        rs = explore(p, f, L(quiet), {"$0.#size": 1}, more=more)
        for r in rs:
            if len(rs) > 1 and not r.ev and old != new:
                continue        # not a traffic light
            what = "lamp mode %d after %d" % (new, old)
            want = ["write TRAFFIC_LIGHT 40|30|0|%d" % new] if old != new else []
            ctx.check([e for e in r.ev if e] == want, what, f.loc(), "writes %s" % (list(r.ev),))
            if old != new:
                v = r.eng.read(r.st, sub(C, "second.lamp_mode"))
                ctx.check(is_c(v) and v[1] == new, what + ": remembered", f.loc(), "the mode compared next time is not the one written")
        ctx.check(old == new or any(r.ev for r in rs), "changed lamp", f.loc(), "a changed lamp is not written")
    # end
    fs = [f for f in p.q(W + "~DatWriter")]
    for f in fs:
        for opened in (0, 1):
            def watch(name, q, r, v, n):
                if name in ("IsWriteFileOpen", "is_open"):
                    return "", ("c", opened)
                if name in ("flush", "close"):
                    return name, NULL
                return quiet(name, q, r, v, n)
            for r in explore(p, f, T(watch), {"this.simulation_time_": 9.5}):
                ev = [e for e in r.ev if e and e != "flush"]
                ok = ev[:1] == ["write END_OF_SCENARIO 9.5"] and set(ev[1:]) <= {"close"} if opened else not [e for e in ev if e.startswith("write")]
                ctx.check(ok, "end of the recording, file %s" % ("open" if opened else "closed"), f.loc(), "writes %s" % ev)
    ctx.need("destructors of the writer", len(fs), 1)


def bytes_(ctx, p, ids):
    """size announced = bytes copied = distance moved on"""
    n = 0
    for f in p.q(W + "WriteToBuffer"):
        t = f.vars[f.params[1]].t
        ss = [g for g in p.q(W + "SerializedSize") if g.vars[g.params[0]].t == t]
        if not ss:
            continue

        def watch(name, q, r, v, nn):
            if name == "memcpy":
                return "copy %s %s" % (al.poly_str(v[1]), al.pstr(al.poly(v[2]))), NULL
            return quiet(name, q, r, v, nn)
        a, b = explore(p, f, Trace(watch)), explore(p, ss[0], Trace(quiet))
        if len(a) != 1 or len(b) != 1:
            raise Broken("serialisation of %s has several paths" % t)
        n += 1
        x, y = f.vars[f.params[1]].name, ss[0].vars[ss[0].params[0]].name
        copies = [e.split(" ", 2) for e in a[0].ev if e.startswith("copy")]
        tot = sum_poly([c[2] for c in copies])
        size = sum_poly([al.pstr(al.poly(b[0].ret))])
        ctx.check(norm(tot, x) == norm(size, y), "bytes of %s" % base_type(t), f.loc(), "%s bytes are copied, %s announced" % (norm(tot, x), norm(size, y)))
        ctx.check(all(x in c[1] for c in copies) and bool(copies), "source of %s" % base_type(t), f.loc(), "copied from %s" % [c[1] for c in copies])
    ctx.need("serialised types", n, 7)


def sum_poly(xs):
    return " + ".join(xs)


def norm(s, name):
    return " + ".join(sorted(x.replace(name, "@") for x in s.split(" + ")))


SIZE = {"int": 4, "unsigned int": 4, "double": 8, "float": 4, "bool": 1, "char": 1, "long": 8, "unsigned long": 8}
#           packet -> (time line, members in the order of the file)
STORE = {"SPEED": "speed_", "OBJ_GID": "obj_gid_", "MODEL_ID": "model_id_", "OBJ_TYPE": "obj_type_", "OBJ_CATEGORY": "obj_category_", "CTRL_TYPE": "ctrl_type_",
         "WHEEL_ANGLE": "wheel_angle_", "WHEEL_ROT": "wheel_rot_", "SCALE_MODE": "scale_mode_", "VISIBILITY_MASK": "visibility_mask_", "NAME": "name_",
         "ROAD_ID": "road_id_", "LANE_ID": "lane_id_", "POS_OFFSET": "pos_offset_", "POS_T": "pos_t_", "POS_S": "pos_s_", "REFPOINT_X_OFFSET": "refpoint_x_offset_",
         "MODEL_X_OFFSET": "model_x_offset_", "OBJ_MODEL3D": "model3d_", "BB_COLOR": "bb_color_", "SHAPE_2D_OUTLINE": "outline_", "POSE": "pose_", "BOUNDING_BOX": "bounding_box_"}
MEMBERS = {"POSE": list("xyzhpr"), "BOUNDING_BOX": ["center_.x_", "center_.y_", "center_.z_", "dimensions_.length_", "dimensions_.width_", "dimensions_.height_"]}


def types(fn, n, first):
    res = []
    for i in n.c[first:]:
        if i >= 0:
            res.append(base_type(fn.nodes[i].t))
    return res


def width(ts):
    return [SIZE.get(t, "image of a string" if t.endswith("PacketString") or "basic_string" in t else t) for t in ts]


def leaves(p, t):
    r = p.recs.get(t)
    if r is None:
        return [""]
    res = []
    for x in r.fields:
        for y in leaves(p, base_type(x["t"])):
            res.append(x["n"] + ("." + y if y else ""))
    return res


class RD(Trace):
    limit = 14

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        r = al.path(recv) if recv is not None else ""
        if q == "Dat::DatReader::ReadPacket":
            k = 0
            ts = types(n.fn, n, 2)
            for a, t in zip(args[1:], ts):
                for m in leaves(eng.p, t):
                    l = sub(a[1], m) if m else a[1]
                    eng.write(st, l, ("init", ("g", "F%d" % k)))
                    k += 1
            st.ev = st.ev + ("read %s" % ",".join(map(str, width(ts))),)
            return [(st, NULL)]
        if q == "Dat::DatReader::ReadStringPacket":
            st.ev = st.ev + ("read image of a string",)
            return [(st, ("init", ("g", "F0")))]
        if q == "Dat::DatReader::ReadVectorPacket":
            st.ev = st.ev + ("read %s" % ",".join(types(n.fn, n, 2)),)
            eng.write(st, args[1][1], ("init", ("g", "F0")))
            return [(st, NULL)]
        if name == "empty" and "basic_string" in q:
            return [(st, NULL)]
        if name == "move" and args:
            return [(st, eng.aval(st, args[0]))]
        if name in ("emplace_back", "push_back") and r.endswith(".values"):
            v = args[1] if len(args) > 1 else None
            t = base_type(n.fn.nodes[n.c[-1]].t)
            val = eng.aval(st, v) if v else None
            if v is None:
                c = ""
            elif v[0] == "L" and t in eng.p.recs:
                c = ";".join("%s=%s" % (m, flat(eng.read(st, sub(v[1], m)))) for m in leaves(eng.p, t))
            else:
                c = flat(val)
            st.ev = st.ev + ("store %s at %s: %s" % (r[:-7], flat(eng.aval(st, args[0])), c),)
            return [(st, NULL)]
        if name == "BuildElementStateChange":
            return [(st, eng.aval(st, args[0]))]
        if name == "operator[]" and "map" in q:
            st.ev = st.ev + ("key %s" % flat(eng.aval(st, args[0])),)
            return [(st, ("&", ("f", recv, "ENTRY")))]
        if name == "count" and "map" in q:
            return [(st, ("c", self.known))]
        return super().call(eng, st, n, q, recv, args)


def reader(ctx, p, ids):
    f = p.q1(R + "ParsePackets")
    # what the writer puts into each packet
    wr = {}
    for g in p.all(lambda q, file, l: q.startswith(W) and "PacketHandler" in file):
        for n in g.nodes:
            if n.k == "call" and n.g("q") == W + "Write":
                e = g.nodes[n.c[1]]
                while e.k == "cast":
                    e = g.nodes[e.c[0]]
                if e.k == "enum":
                    wr.setdefault(e.g("v") and RID.get(int(e.g("v"))), []).append((width(types(g, n, 2)), g, n))
    wr.pop(None, None)
    ctx.need("kinds of packets written", len(wr), 29)
    TH = ("d", ("init", ("v", 0, "this")))
    pk = ("i", ("i", ("f", TH, "generic_packets_"), NULL), NULL)
    for name in sorted(wr):
        for known in (0, 1) if name == "OBJ_ID" else (1,):
            def more(st):
                st.env[("f", ("i", ("f", TH, "generic_packets_"), NULL), "#size")] = ("c", 1)
                st.env[sub(pk, "header.id")] = ("c", ids[name])
                if name == "OBJ_ID":
                    st.env[("f", ("f", ("f", ("f", TH, "objects_timeline_"), "ENTRY"), "active_"), "values")] = ("init", ("g", "A"))
            t = RD(quiet)
            t.known = known
            rs = explore(p, f, t, {"this.generic_packets_.#size": 1, "this.timestamp_": 3.5}, more=more)
            ctx.count("reader cases")
            ctx.check(bool(rs), "reading " + name, f.loc(), "not read")
            for r in rs:
                reads = [e[5:] for e in r.ev if e.startswith("read")]
                st = [e[6:] for e in r.ev if e.startswith("store")]
                if name in ("DT", "END_OF_SCENARIO"):
                    continue        # taken when the file is split into steps
                if name != "OBJ_DELETED":
                    want = {",".join(map(str, w)) if w != ["image of a string"] else "image of a string" for w, _, _ in wr[name]}
                    ctx.check(len(reads) == 1 and want == set(reads), "layout of " + name, f.loc(), "written as %s, read as %s" % (sorted(want), reads))
                if name in STORE:
                    val = "F0"
                    if name in MEMBERS:
                        exp = {m: "F%d" % i for i, m in enumerate(MEMBERS[name])}
                        got = dict(x.split("=") for x in st[0].split(": ", 1)[1].split(";")) if st and "=" in st[0] else {}
                        ctx.check(all(got.get(m) == v for m, v in exp.items()), "members of " + name, f.loc(), "the members read are %s" % got)
                    head = "this.current_object_timeline_.%s at 3.5" % STORE[name]
                    ctx.check(len(st) == 1 and st[0].split(": ", 1)[0] == head and (name in MEMBERS or st[0].endswith(": " + val)), "value of " + name, f.loc(), "is stored as %s instead of %s" % (st, head))
                elif name == "OBJ_DELETED":
                    ctx.check(st == ["this.current_object_timeline_.active_ at 3.5: 0"], "removal", f.loc(), "is stored as %s" % st)
                elif name == "TIMESTAMP":
                    ctx.check(flat(r.value("this.timestamp_")) == "F0", "time", f.loc(), "the time of the following packets is %s" % flat(r.value("this.timestamp_")))
                elif name == "TRAFFIC_LIGHT":
                    key = [e for e in r.ev if e.startswith("key")]
                    ctx.check(len(st) == 1 and st[0].startswith("this.traffic_lights_timeline_") and " at 3.5: " in st[0] and key == ["key F1"], "lamp", f.loc(), "is stored as %s under %s" % (st, key))
                    order(ctx, p, f, "lamp", st, "Dat::TrafficLightLamp")
                elif name == "ENVIRONMENT":
                    ctx.check(bool(st) and st[-1].startswith("this.environment_timeline_ at 3.5: "), "environment", f.loc(), "is stored as %s" % st)
                    order(ctx, p, f, "environment", st, "Dat::Environment")
                elif name == "LIGHT_STATE":
                    ctx.check(len(st) == 1 and "current_object_timeline_.light_state_[" in st[0] and " at 3.5: " in st[0], "light", f.loc(), "is stored as %s" % st)
                    order(ctx, p, f, "light", st, "Dat::LightState")
                elif name == "ELEM_STATE_CHANGE":
                    ctx.check(len(st) == 1 and st[0] == "this.element_state_changes_ at 3.5: F0", "state change", f.loc(), "is stored as %s" % st)
                elif name == "OBJ_ID":
                    ctx.check(flat(r.value("this.current_object_id_")) == "F0", "object id", f.loc(), "the following packets belong to %s" % flat(r.value("this.current_object_id_")))
                    v = al.poly_str(r.value("this.current_object_timeline_"))
                    ctx.check("objects_timeline_" in v, "object of the packets", f.loc(), "the following packets go to %s" % v)
                    keys = {e for e in r.ev if e.startswith("key")}
                    ctx.check(keys == {"key F0"}, "entry of the object", f.loc(), "time lines of %s are used" % keys)
                    act = [e for e in st if ".active_ " in e]
                    if not known:
                        ctx.check(bool(act) and act[-1].endswith("at 3.5: 1") and (len(act) == 2 and act[0].endswith("at 0: 0")), "first appearance", f.loc(), "stored as %s" % act)
                else:
                    ctx.check(False, "packet " + name, f.loc(), "is written, its reading is not specified")
    # time stamps and end of the recording when the file is split into steps
    # the copy of the bytes of a packet
    split(ctx, p, ids)
    copies(ctx, p)


class SP(T):
    limit = 14

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        r = al.path(recv) if recv is not None else ""
        if q == "Dat::DatReader::ReadFile":
            return [(st, ("c", 1))] if not any(e == "packet" for e in st.ev) else [(st, NULL)]
        if name == "CreateGenericPacket":
            st.ev = st.ev + ("packet",)
            hd = ("agg", (("id", ("c", self.id)), ("data_size", ("c", 8))))
            return [(st, ("agg", (("header", hd),)))]
        if q == "Dat::DatReader::ReadPacket":
            for a in args[1:]:
                eng.write(st, a[1], ("c", self.val))
            return [(st, NULL)]
        if name in ("emplace_back", "push_back"):
            st.ev = st.ev + ("add %s %s" % (r, " ".join(flat(eng.aval(st, a)) for a in args) if "packets" not in r else ""),)
            return [(st, NULL)]
        if name == "back" and r.endswith("timestamps_"):
            return [(st, ("&", ("g", "LASTTIME")))]
        if name == "empty" and r.endswith("timestamps_"):
            return [(st, NULL)]
        if name == "ReWriteToBuffer":
            st.ev = st.ev + ("rewrite %s" % flat(eng.aval(st, args[1])),)
            return [(st, NULL)]
        return super().call(eng, st, n, q, recv, args)


def split(ctx, p, ids):
    """packets keep their order and step; times, step sizes and the end are noted"""
    f = p.q1(R + "ExtractPacketsAsSlices")
    for name, v in sorted(ids.items()):
        for dts, sc, val in ((1, 0, 5.0), (0, 0, 5.0), (1, 0, 2.0), (0, 1, 5.0)):
            t = SP(quiet)
            t.id, t.val = v, val

            def more(st):
                st.env[("g", "LASTTIME")] = ("c", 3.0)
            what = "splitting %s %g, step sizes %s%s" % (name, val, "kept" if dts else "taken out", ", second recording" if sc else "")
            rs = explore(p, f, t, {"$0": dts, "$1": sc, "this.stopTime_": 1.0}, more=more)
            rs = [r for r in rs if "packet" in r.ev]
            ctx.check(bool(rs), what, f.loc(), "packet is not handled")
            for r in rs:
                ctx.count("split cases")
                ev = [e for e in r.ev if e.startswith("add")]
                pk = [e for e in ev if ".packets" in e or "packets " in e]
                keep = not (name == "END_OF_SCENARIO" or (name == "DT" and not dts) or (sc and name in ("TRAFFIC_LIGHT", "ELEM_STATE_CHANGE", "ENVIRONMENT")))
                ctx.check(len(pk) == int(keep), what + ": packet", f.loc(), "packet is kept %d times" % len(pk))
                tm = [e for e in ev if "timestamps_" in e]
                want = 1 if name in ("TIMESTAMP", "END_OF_SCENARIO") and val > 3 else 0
                ctx.check(len(tm) == want and all(e.endswith(" %g" % val) for e in tm), what + ": times", f.loc(), "times noted: %s" % tm)
                dt = [e for e in ev if "dts_" in e]
                ctx.check(len(dt) == int(name == "DT") and all(e.endswith(" %g" % val) for e in dt), what + ": step size", f.loc(), "step sizes noted: %s" % dt)
                ctx.check(len([e for e in ev if e.startswith("add this.packet_slices_ ")]) == int(name == "TIMESTAMP"), what + ": step", f.loc(), "leads to %s" % ev)
                if name == "END_OF_SCENARIO":
                    ctx.check(r.const("this.eos_received_") == 1 and r.const("this.stopTime_") == val, what + ": end", f.loc(), "end is %s at %s" % (r.const("this.eos_received_"), r.const("this.stopTime_")))
                if sc and name == "OBJ_ID":
                    ctx.check([e for e in r.ev if e.startswith("rewrite")] == ["rewrite %g" % (val + 100)], what + ": object id", f.loc(), "ids of the second recording become %s" % (r.ev,))
                else:
                    ctx.check(not any(e.startswith("rewrite") for e in r.ev), what + ": unaltered", f.loc(), "packet is altered")


def order(ctx, p, f, what, st, t):
    exp = ["%s=F%d" % (m, i) for i, m in enumerate(leaves(p, t))]
    ctx.check(bool(st) and st[-1].split(": ", 1)[1] == ";".join(exp), what + ": members", f.loc(), "members are %s" % (st[-1:] and st[-1]))


def copies(ctx, p):
    fs = p.q("Dat::DatReader::ReadPacket")
    ctx.need("packet readers", len(fs), 6)
    for f in fs:
        ts = [base_type(f.vars[x].t) for x in f.params[1:]]
        if not all(t in SIZE for t in ts):
            continue
        tot = sum(SIZE[t] for t in ts)
        for have in sorted({tot, tot - 1, tot + 4, 0, SIZE[ts[0]]}):
            class CP(Trace):
                def call(self, eng, st, n, q, recv, args):
                    if q.rsplit("::", 1)[-1] == "memcpy":
                        v = [eng.aval(st, a) for a in args]
                        st.ev = st.ev + ("%s<-%s:%s" % (al.poly_str(v[0]), al.pstr(al.poly(v[1])), al.pstr(al.poly(v[2]))),)
                        return [(st, NULL)]
                    return super().call(eng, st, n, q, recv, args)
            src = f.vars[f.params[0]].name + ".data"
            exp, off = [], 0
            for x, t in zip(f.params[1:], ts):
                if off + SIZE[t] <= have:
                    exp.append("%s<-%s%s:%d" % (f.vars[x].name, src, " + %d" % off if off else "", SIZE[t]))
                    off += SIZE[t]
            what = "%d bytes into %s" % (have, ", ".join(ts))
            rs = explore(p, f, CP(quiet), {"$0.header.data_size": have, "$0.data.#size": have})
            ctx.check(bool(rs), what, f.loc(), "does not return")
            for r in rs:
                ctx.count("copies")
                ctx.check(list(r.ev) == exp, what, f.loc(), "copies %s instead of %s" % (list(r.ev), exp))


ENTRY = {"state.info.gid": "obj_gid_", "state.info.model_id": "model_id_", "state.info.obj_type": "obj_type_", "state.info.obj_category": "obj_category_", "state.info.ctrl_type": "ctrl_type_",
         "state.info.name": "name_", "state.info.speed": "speed_", "state.info.wheel_angle": "wheel_angle_", "state.info.wheel_rot": "wheel_rot_", "state.info.boundingbox": "bounding_box_",
         "state.info.scaleMode": "scale_mode_", "state.info.visibilityMask": "visibility_mask_", "state.info.active": "active_", "state.pos.roadId": "road_id_", "state.pos.laneId": "lane_id_",
         "state.pos.offset": "pos_offset_", "state.pos.t": "pos_t_", "state.pos.s": "pos_s_", "odometer": "odometer_"}
ENTRY.update({"state.pos." + a: "pose_." + a for a in "xyzhpr"})


class EN(Trace):
    maxd = 60
    limit = 14
    lights = 0

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        if name.startswith("get_value_"):
            return [(st, ("init", ("d", ("init", ("g", "<%s@%s>" % (al.path(recv), flat(eng.aval(st, args[0]))))))))]
        if name in ("value", "value_or", "operator*", "operator->") and "optional" in q and recv is not None:
            v = eng.read(st, recv)
            if name == "operator->":
                return [(st, ("&", v[1] if v[0] == "init" else recv))]
            return [(st, v)]
        if name == "EntityHasLightState":
            return [(st, ("c", self.lights))]
        if name in ("has_value", "operator bool") and "optional" in q:
            return [(st, ("c", 1))]
        return super().call(eng, st, n, q, recv, args)


def entries(ctx, p):
    """each field of a replayed state comes from the time line of the same quantity, at the time asked for"""
    f = p.q1(R + "GetReplayEntryAtTimeIncremental")
    pid, pt = (f.vars[x].name for x in f.params)
    for lights in (0, 1):
        t = EN(quiet, writes=lambda path, v, n: "set %s=%s" % (path, v) if "light_state[" in path else None)
        t.lights = lights
        rs = explore(p, f, t, {"$0": 3} if lights else {})
        if lights:
            rs = [r for r in rs if any(e.startswith("set") for e in r.ev)]
            pid = "3"
        ctx.check(bool(rs), "replayed state%s" % (", lights" if lights else ""), f.loc(), "not built")
        for r in rs:
            got = {}
            for k, v in r.st.env.items():
                a = al.path(k).split(".", 1)
                if len(a) == 2 and a[1].startswith(("state.", "odometer", "has_lightstate")):
                    got[a[1]] = flat(v)
            ctx.check(got.get("state.info.id") == pid, "replayed state: id", f.loc(), "is %s" % got.get("state.info.id"))
            ctx.check(got.get("state.info.timeStamp") == pt, "replayed state: time", f.loc(), "is %s" % got.get("state.info.timeStamp"))
            for k, l in sorted(ENTRY.items()):
                ctx.count("replayed fields")
                a, _, b = l.partition(".")
                want = "<this.objects_timeline_.at(%s).%s@%s>%s" % (pid, a, pt, "." + b if b else "")
                ctx.check(got.get(k) == want, "replayed state: " + k, f.loc(), "is %s instead of %s" % (got.get(k), want))
            ctx.check((got.get("has_lightstate") == "1") == bool(lights), "replayed state: lights present", f.loc(), "lights are %s" % got.get("has_lightstate"))
            if lights:
                last = dict(e[4:].split("=", 1) for e in r.ev if e.startswith("set"))
                ks = {k.split("light_state[", 1)[1].split("]")[0] for k in last}
                ctx.need("replayed lights", len(ks), 10)
                for i in sorted(ks):
                    for a, b in LIGHT:
                        want = "<this.objects_timeline_.at(3).light_state_[%s]@%s>.%s" % (i, pt, a)
                        g = [v for k, v in last.items() if k.endswith("light_state[%s].%s" % (i, b))]
                        ctx.check(g == [want], "replayed light: " + b, f.loc(), "is %s instead of %s" % (g, want))


def lookup(ctx, p):
    """the value at a time is the last one recorded up to it"""
    fs = p.q("scenarioengine::Timeline<int>::get_value_incremental")
    if not fs:
        raise Broken("look up of a recorded value not found")
    f = fs[0]
    E = 1e-10
    #        times recorded, position of the previous look up, time asked, expected position
    cases = [([0, 1, 2], 0, 0.0, 0), ([0, 1, 2], 0, 0.5, 0), ([0, 1, 2], 0, 1.0, 1), ([0, 1, 2], 0, 1 - E, 1), ([0, 1, 2], 0, 1.5, 1), ([0, 1, 2], 1, 1.5, 1), ([0, 1, 2], 1, 2.0, 2),
             ([0, 1, 2], 1, 9.0, 2), ([0, 1, 2], 2, 9.0, 2), ([0, 1, 2], 2, 2.0, 2), ([0, 1, 2], 2, 1.5, 1), ([0, 1, 2], 2, 1.0, 1), ([0, 1, 2], 1, 0.5, 0), ([0, 1, 2], 1, 0.0, 0),
             ([1, 2, 3], 0, 0.5, 0), ([1, 2, 3], 1, 0.5, 0), ([0, 1, 1], 1, 1.5, 2), ([0, 0, 1], 2, 0.5, 1), ([0, 1, 2], 2, 2 - E, 2), ([5], 0, 9.0, 0), ([5], 0, 1.0, 0), ([], 0, 1.0, None)]
    for ts, at, t, want in cases:
        for fresh in (0, 1) if at == 0 else (0,):
            def more(st):
                TH = ("d", ("init", ("v", 0, "this")))
                vs = ("f", TH, "values")
                st.env[("f", vs, "#size")] = ("c", len(ts))
                for i, x in enumerate(ts):
                    st.env[("f", ("i", vs, ("c", i)), "first")] = ("c", float(x))
                    st.env[("f", ("i", vs, ("c", i)), "second")] = ("c", 100 + i)
                st.env[("f", TH, "last_index")] = ("c", at)
                st.env[("f", TH, "last_time")] = ("c", 1e10 if fresh or not ts else float(ts[at]))

            class LK(T):
                def call(self, eng, st, n, q, recv, args):
                    name = q.rsplit("::", 1)[-1]
                    if name == "optional" or (n.k == "ctor" and "optional" in q):
                        return [(st, eng.aval(st, args[0]) if args else ("init", ("g", "none")))]
                    return super().call(eng, st, n, q, recv, args)
            rs = explore(p, f, LK(quiet), {"$0": t}, more=more)
            what = "value at %g of values at %s, previously number %d%s" % (t, ts, at, ", first look up" if fresh else "")
            ctx.count("look ups")
            ctx.check(bool(rs), what, f.loc(), "no result")
            for r in rs:
                if want is None:
                    ctx.check("none" in str(r.ret) or "nullopt" in str(r.ret), what, f.loc(), "is %s" % flat(r.ret))
                    continue
                ctx.check(is_c(r.ret) and r.ret[1] == 100 + want, what, f.loc(), "is that of %s instead of number %d" % (flat(r.ret), want))
                li, lt = r.const("this.last_index"), r.const("this.last_time")
                ctx.check(li is not None and (lt == 1e10 or lt == ts[int(li)]) and int(li) == want, what + ": memory", f.loc(), "the next look up starts from number %s, time %s" % (li, lt))
