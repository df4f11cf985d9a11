"""State reported from outside is taken as reported, and only what was not reported is derived.

Report functions: on every path that reports success each argument has reached the setter of the quantity it is named
after, on the object asked for, and the update flags of exactly these quantities are set. Frame preparation: every derived
quantity is stored only where its update flag is known to be unset, with the value its definition prescribes; no division
by a time step not known to be positive; the previous state is saved from the matching current quantities. Frame order:
flags are read from the current layer while the scenario steps, and are retired only after all consumers of the frame ran.
"""
import re
import algebra as al
from extract import Broken
from flow import Client, Engine, is_c, query, show
from api import LIB, LibClient, exported, may_return_null

ASSUMPTIONS = ["Position::SetInertiaPos, SetLanePos and SetTrackPos compute the position from the arguments they are given (geometry is not analysed)"]

OBJ = "GetObjectById($0)"
POS = OBJ + ".pos_"
LL = ("LONGITUDINAL", "LATERAL")


def sets(fields, names):
    return [("set", "%s.%s" % (OBJ, f), n) for f, n in zip(fields.split(), names.split())]


# function -> (events that must have happened on success, flags that must be set)
REPORT = {
    "SE_ReportObjectPos": ([("call", "SetInertiaPos", "$1 $2 $3 $4 $5 $6")], LL),
    "SE_ReportObjectPosMode": ([("call", "SetInertiaPosMode", "$1 $2 $3 $4 $5 $6 $7")], LL),
    "SE_ReportObjectPosXYH": ([("call", "SetInertiaPos", "$1 $2 $3")], LL),
    "SE_ReportObjectRoadPos": ([("call", "SetLanePos", "$1 $2 $4 $3")], LL),
    "SE_ReportObjectLateralPosition": ([("call", "SetTrackPos", POS + ".track_id_ " + POS + ".s_ $1")], ("LATERAL",)),
    "SE_ReportObjectLateralLanePosition": ([("call", "SetLanePos", POS + ".track_id_ $1 " + POS + ".s_ $2")], ("LATERAL",)),
    "SE_ReportObjectSpeed": (sets("speed_", "$1"), ("SPEED",)),
    "SE_ReportObjectVel": (sets("pos_.velX_ pos_.velY_ pos_.velZ_", "$1 $2 $3"), ("VELOCITY",)),
    "SE_ReportObjectAcc": (sets("pos_.accX_ pos_.accY_ pos_.accZ_", "$1 $2 $3"), ("ACCELERATION",)),
    "SE_ReportObjectAngularVel": (sets("pos_.h_rate_ pos_.p_rate_ pos_.r_rate_", "$1 $2 $3"), ("ANGULAR_RATE",)),
    "SE_ReportObjectAngularAcc": (sets("pos_.h_acc_ pos_.p_acc_ pos_.r_acc_", "$1 $2 $3"), ("ANGULAR_ACC",)),
    "SE_ReportObjectWheelStatus": (sets("wheel_rot_ wheel_angle_", "$1 $2"), ("WHEEL_ROTATION", "WHEEL_ANGLE")),
}
POSSET = re.compile(r"::Position::(Set(InertiaPos|InertiaPosMode|LanePos|TrackPos|LaneBoundaryPos)|XYZ?H?2TrackPos|MoveAlongS|TeleportTo)$")
# derived quantity -> flag that protects it
PROTECT = {
    "pos_.velX_": "VELOCITY", "pos_.velY_": "VELOCITY", "pos_.velZ_": "VELOCITY", "speed_": "SPEED",
    "pos_.accX_": "ACCELERATION", "pos_.accY_": "ACCELERATION", "pos_.accZ_": "ACCELERATION",
    "pos_.h_rate_": "ANGULAR_RATE", "pos_.p_rate_": "ANGULAR_RATE", "pos_.r_rate_": "ANGULAR_RATE",
    "pos_.h_acc_": "ANGULAR_ACC", "pos_.p_acc_": "ANGULAR_ACC", "pos_.r_acc_": "ANGULAR_ACC",
    "wheel_angle_": "WHEEL_ANGLE", "wheel_rot_": "WHEEL_ROTATION",
}
DERIVED = {
    "pos_.velX_": ["(O.pos_.x_ - O.state_old.pos_x) / $0", "O.speed_ * cos(O.pos_.h_)"],
    "pos_.velY_": ["(O.pos_.y_ - O.state_old.pos_y) / $0", "O.speed_ * sin(O.pos_.h_)"],
    "pos_.velZ_": ["(O.pos_.z_ - O.state_old.pos_z) / $0", "0"],
    "pos_.accX_": ["(O.pos_.velX_ - O.state_old.vel_x) / $0"],
    "pos_.accY_": ["(O.pos_.velY_ - O.state_old.vel_y) / $0"],
    "pos_.accZ_": ["(O.pos_.velZ_ - O.state_old.vel_z) / $0"],
    "pos_.h_rate_": ["GetAngleDifference(O.pos_.h_, O.state_old.h) / $0"],
    "state_old.pos_x": ["O.pos_.x_"], "state_old.pos_y": ["O.pos_.y_"], "state_old.pos_z": ["O.pos_.z_"],
    "state_old.vel_x": ["O.pos_.velX_"], "state_old.vel_y": ["O.pos_.velY_"], "state_old.vel_z": ["O.pos_.velZ_"],
    "state_old.h": ["O.pos_.h_"], "state_old.h_rate": ["O.pos_.h_rate_"],
}
SAVED = [k for k in DERIVED if k.startswith("state_old")]


class Bits:
    """update flags as facts: ('op','bits',(object),(bit)) is known set / known unset"""

    def bit_call(self, eng, st, n, q, recv, args):
        cls, _, name = q.rpartition("::")
        if not cls.endswith("DirtyBits") or recv is None:
            return None
        r = al.path(recv)
        if name in ("SetBits", "Check"):
            m = eng.aval(st, args[0])
            if not is_c(m):
                return None
            m = int(m[1])
            bits = [1 << i for i in range(40) if m >> i & 1]
            if name == "Check":
                if len(bits) == 1 and self.unset(st, r, bits[0]) is False:
                    return [(st, ("c", 1))]
                return [(st, ("op", "bits", ("c", r), ("c", m)))]
            for b in bits:
                self.setbit(st, r, b)
            return [(st, ("c", 0))]
        return None

    def term(self, r, b):
        return ("op", "bits", ("c", r), ("c", b))

    def setbit(self, st, r, b):
        for k in [k for k in st.facts if k[0] == "nz" and k[1][:2] == ("op", "bits") and k[1][2] == ("c", r) and k[1][3][1] & b]:
            if st.facts[k] is False:
                st.aux[("was0", r, b)] = 1
            del st.facts[k]
        st.facts[("nz", self.term(r, b))] = True

    def unset(self, st, r, b):
        """True: was unset when last looked at in this round, False: set, None: unknown"""
        if st.aux.get(("was0", r, b)):
            return True
        res = None
        for k, v in st.facts.items():
            if k[0] == "nz" and k[1][:2] == ("op", "bits") and k[1][2] == ("c", r):
                m = k[1][3][1]
                if v is False and m & b:
                    return True
                if v is True and m == b:
                    res = False
        return res


class Report(LibClient, Bits):
    max_inline = 5

    def __init__(self, prog, mn):
        LibClient.__init__(self)
        self.p = prog
        self.mn = mn
        self.other = []

    def inline(self, eng, fn, n):
        return fn.file.endswith(self.suffix) or len(fn.blocks) <= 3

    def call(self, eng, st, n, q, recv, args):
        u = n.g("u")
        if u in self.mn and len(self.p.fn(u).blocks) > 3:
            return [(st, ("mn", q.rsplit("::", 1)[-1], 0, tuple(eng.aval(st, a) for a in args)))]
        if POSSET.search(q):
            vals = " ".join(al.poly_str(eng.aval(st, a)) for a in args)
            r = al.path(recv) if recv is not None else "?"
            if r.startswith(OBJ + ".pos_") or r == "?":
                st.aux[("call", q.rsplit("::", 1)[-1], vals)] = 1
                return [(st, ("call", q, (), n.id, 0))]
            self.other.append((n, "%s of %s is changed" % (q.rsplit("::", 1)[-1], r)))
        return self.bit_call(eng, st, n, q, recv, args)

    def setbit(self, st, r, b):
        Bits.setbit(self, st, r, b)
        st.aux[("bit", r, b)] = 1

    def write(self, eng, st, n, loc, val):
        p = al.path(loc)
        if p.startswith(OBJ + "."):
            for k in [k for k in st.aux if k[:2] == ("set", p)]:
                del st.aux[k]
            st.aux[("set", p, al.poly_str(val))] = 1

    def part(self, eng, st):
        v = st.tmp.get(("ret", eng.retctx))
        return None if v is None else show(v)


class Derive(Client, Bits):
    once = True
    max_inline = 4

    def __init__(self, files):
        self.files = files
        self.roots = set()
        self.ev = []
        self.need = []

    def inline(self, eng, fn, n):
        return len(fn.blocks) <= 3 or fn.file.endswith(self.files)

    def call(self, eng, st, n, q, recv, args):
        r = self.bit_call(eng, st, n, q, recv, args)
        if r is not None:
            self.roots.add(al.path(recv))
            return r
        if POSSET.search(q) or q.endswith("Object::MoveAlongS"):
            self.ev.append((n, "move", q.rsplit("::", 1)[-1], al.path(recv) if recv is not None else "?", st.copy(), None))
        return None

    def write(self, eng, st, n, loc, val):
        p = al.path(loc)
        if loc[0] == "v":
            v = al.poly_str(val)
            for k in [k for k in st.aux if k[0] == "was0" and (k[1] == v + ".dirty_" or k[1] == p + ".dirty_")]:
                del st.aux[k]
            return
        self.ev.append((n, "set", p, val, st.copy(), loc))


def split(path, roots):
    """object and the field below it"""
    for r in roots:
        o = r[:-len(".dirty_")] if r.endswith(".dirty_") else r
        if path.startswith(o + "."):
            return o, path[len(o) + 1:]
    return None


def derived(ctx, p, bit):
    q = "scenarioengine::ScenarioEngine::prepareGroundTruth"
    f = p.q1(q)
    dtp = f.params[0]
    dt = ("init", ("v", 0, dtp, f.vars[dtp].name))
    al.PARAMS = {dtp: 0}
    eps = small(p)
    covered = {}
    for positive in (True, False):
        c = Derive(("ScenarioEngine.cpp",))
        e = Engine(p, c)

        def setup(st):
            st.facts[("lt", ("c", eps), dt)] = positive

        e.run(f, setup)
        for n, kind, path, val, st, loc in c.ev:
            if kind != "set":
                continue
            s = split(path, c.roots)
            if s is None or "?" in s[0]:
                continue        # rounds after the first repeat the same code on another object
            o, fld = s
            where = n.fn.loc(n)
            got = al.poly_str(val)
            ob = obj_loc(loc, fld)
            if fld in PROTECT:
                u = c.unset(st, o + ".dirty_", bit[PROTECT[fld]])
                ctx.check(u is True, "derived %s is protected" % fld, where,
                          "%s is overwritten where it may have been reported (%s not known to be unset)" % (fld, PROTECT[fld]))
            if fld == "odometer_":
                u = c.unset(st, o + ".dirty_", bit["TELEPORT"])
                ctx.check(u is True, "odometer skips teleports", where, "distance is added where the object may have been teleported")
                want = "O.odometer_ + abs(sqrt((O.pos_.x_ - I.state_old.pos_x) ** 2 + (O.pos_.y_ - I.state_old.pos_y) ** 2))"
                ok = same(want, val, e, st, ob, dt) or same(want.replace("abs(sqrt", "(sqrt"), val, e, st, ob, dt)
                covered.setdefault(fld, []).append(ok)
                ctx.check(loose(got) or ok, "odometer adds the distance moved", where, "odometer becomes %s" % got)
            if "$0^-" in got or re.search(r"\$0\)*\^-", got):
                ctx.check(query(st, ("op", "<", ("c", 0), dt)) is True or query(st, ("op", "<", ("c", eps), dt)) is True,
                          "%s divides by a positive step" % fld, where, "%s is divided by a time step that may be zero" % fld)
            if fld in DERIVED:
                ok = [w for w in DERIVED[fld] if same(w, val, e, st, ob, dt)]
                covered.setdefault(fld, []).append(bool(ok))
                ctx.check(bool(ok) or loose(got), "value of %s" % fld, where, "%s is set to %s, expected %s" % (fld, got, " or ".join(DERIVED[fld])))
                if ok and fld.startswith("pos_.vel") and "$0" in ok[0]:
                    u = c.unset(st, o + ".dirty_", bit["TELEPORT"])
                    ctx.check(u is True, "velocity across a teleport", where, "velocity is computed from the distance of a teleport")
            if fld in SAVED:
                for b in ("VELOCITY", "SPEED", "ACCELERATION", "ANGULAR_RATE", "ANGULAR_ACC") if positive else ("VELOCITY",):
                    r = query(st, c.term(o + ".dirty_", bit[b]))
                    ctx.check(r is True, "%s known at end of frame%s" % (b, "" if positive else " without time step"), where,
                              "the previous state is saved on a path where %s was neither reported nor derived" % b)
    for fld in list(DERIVED) + ["odometer_"]:
        ctx.check(any(covered.get(fld, [])), "%s is maintained" % fld, f.loc(), "%s is never set to its defined value" % fld)
    al.PARAMS = None


def small(p):
    return 1e-6


def loose(got):
    return got == "?"


def obj_loc(loc, fld):
    for _ in fld.split("."):
        loc = loc[1]
    return loc


def same(want, val, eng, st, obj, dt):
    """val is the value of the formula over the object's state at this point"""
    def sub(name):
        if name == "DT":
            return al.poly(dt)
        if name.startswith(("O.", "I.")):
            l = obj
            for part in name.split(".")[1:]:
                l = ("f", l, part)
            return al.poly(eng.read(st, l) if name[0] == "O" else ("init", l))
    w = al.expect(want.replace("$0", "DT"), sub)
    g = al.poly(val)
    return w == g or al.matches(al.pstr(w), al.pstr(g))


def moves(ctx, p, bit):
    """the default motion leaves alone what was reported or is controlled"""
    f = p.q1("scenarioengine::ScenarioEngine::defaultController")
    c = Derive(("ScenarioEngine.cpp",))
    e = Engine(p, c)
    e.run(f)
    n_mv = 0
    for n, kind, name, recv, st, _ in c.ev:
        if kind != "move":
            continue
        n_mv += 1
        ok = any(c.unset(st, r, bit["LONGITUDINAL"]) is True for r in c.roots)
        ctx.check(ok, "default motion of %s" % name, n.fn.loc(n), "the object is moved where its position may have been reported this frame")
    if not n_mv:
        raise Broken("defaultController moves nothing")


class Frame(Client):
    max_inline = 2

    def __init__(self):
        self.bad = []
        self.seen = {}

    def inline(self, eng, fn, n):
        return fn.file.endswith("playerbase.cpp") and fn.name not in ("ScenarioFrame", "ScenarioPostFrame", "Draw")

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        if q.endswith("DirtyBits::SetReadFront"):
            st.aux["front"] = 1
            st.aux.pop("back", None)
        elif q.endswith("DirtyBits::SetReadBack"):
            st.aux["back"] = 1
            st.aux.pop("front", None)
        elif name == "ScenarioFrame":
            self.seen[name] = self.seen.get(name, 0) + 1
            if "front" not in st.aux:
                self.bad.append((n, "the scenario is stepped while update flags of the previous frame may be read"))
            if "swap" in st.aux:
                self.bad.append((n, "the scenario is stepped after the flags were retired"))
            st.aux["frame"] = 1
            v = ("call", q, (), n.id, len(st.aux))
            st.tmp["last"] = v
            return [(st, v)]
        elif name == "ScenarioPostFrame":
            self.seen[name] = self.seen.get(name, 0) + 1
            if "swap" in st.aux or "back" in st.aux:
                self.bad.append((n, "consumers of the frame run after the flags of the frame were retired"))
            st.aux["post"] = 1
            return [(st, ("c", 0))]
        elif name == "SwapAndClearDirtyBits":
            self.seen[name] = self.seen.get(name, 0) + 1
            if "post" not in st.aux:
                self.bad.append((n, "flags are retired on a path where the consumers of the frame did not run"))
            st.aux["swap"] = 1
            return [(st, ("c", 0))]
        elif name == "Lock" and q.endswith("SE_Mutex::Lock"):
            st.aux["locked"] = 1
        elif name == "Unlock" and q.endswith("SE_Mutex::Unlock"):
            st.aux.pop("locked", None)
            st.aux["free"] = 1
        return None

    def part(self, eng, st):
        v = st.tmp.get(("ret", eng.retctx))
        return (None if v is None else query(st, v)), "frame" in st.aux, "swap" in st.aux, "back" in st.aux, "locked" in st.aux, "post" in st.aux


def frame(ctx, p):
    fs = [f for f in p.in_file("playerbase.cpp") if f.name == "Frame" and len(f.params) == 2]
    if len(fs) != 1:
        raise Broken("ScenarioPlayer::Frame(double, bool) not found")
    f = fs[0]
    c = Frame()
    e = Engine(p, c)
    outs = e.run(f)
    for n in ("ScenarioFrame", "ScenarioPostFrame", "SwapAndClearDirtyBits"):
        if not c.seen.get(n):
            ctx.check(False, "frame order: %s" % n, f.loc(), "%s does not take place in a frame" % n)
    for n, what in c.bad:
        ctx.check(False, "frame order", n.fn.loc(n), what)
    ctx.check(not c.bad, "frame order", f.loc(), "")
    for st, v in outs:
        ctx.check("locked" not in st.aux, "engine lock released", f.loc(), "a path leaves the frame with the engine locked")
        if "post" in st.aux:
            ctx.check("swap" in st.aux and "back" in st.aux, "flags retired after a frame", f.loc(),
                      "a completed frame leaves its update flags in place, so reported values stick for the next frame")


def run(ctx):
    p = ctx.program()
    mn = may_return_null(p)
    en = [e for q, e in p.enums.items() if q.endswith("Object::DirtyBit")]
    if not en:
        raise Broken("Object::DirtyBit not found")
    bit = {k.rsplit("::", 1)[-1]: v for k, v in en[0]}
    fs = {f.name: f for f in exported(p, LIB, "SE_")}
    try:
        for name, (evs, flags) in REPORT.items():
            f = fs.get(name)
            if f is None:
                continue
            ctx.count("report functions")
            al.PARAMS = {v: i for i, v in enumerate(f.params)}
            c = Report(p, mn)
            good = 0
            for st, v in Engine(p, c).run(f):
                if v is None or not is_c(v) or v[1] != 0:
                    continue
                good += 1
                have = set(st.aux)
                for ev in evs:
                    ok = ev in have or any(k[:2] == ev[:2] and k[0] == "call" and k[2].startswith(ev[2] + " ") for k in have)
                    ctx.check(ok, "%s passes on %s" % (name, ev[-1]), f.loc(),
                              "a path that reports success does not %s %s with %s; it does: %s" % (
                                  "call" if ev[0] == "call" else "set", ev[1], ev[2],
                                  "; ".join(sorted(" ".join(k[1:]) for k in have if k[0] == ev[0])) or "nothing"))
                extra = [k for k in have if k[0] == "call" and not any(k[:2] == ev[:2] for ev in evs)] + \
                    [k for k in have if k[0] == "set" and k not in evs and not k[1].startswith(OBJ + ".dirty_")]
                ctx.check(not extra, "%s changes nothing else" % name, f.loc(), "also changes %s" % "; ".join(" ".join(k[1:]) for k in sorted(extra)))
                for b in flags:
                    ctx.check(("bit", OBJ + ".dirty_", bit[b]) in have, "%s flags %s" % (name, b), f.loc(),
                              "a path that reports success does not mark %s as reported" % b)
                got = {k[2] for k in have if k[0] == "bit"}
                allowed = {bit[b] for b in flags} | ({bit["LONGITUDINAL"]} if "LATERAL" in flags else set())
                ctx.check(got <= allowed, "%s flags nothing else" % name, f.loc(), "marks quantities as reported that were not: %s" % ", ".join(
                    k for k, v in bit.items() if v in got - allowed))
            ctx.check(good > 0, "%s can succeed" % name, f.loc(), "no path reports success")
            for n, what in c.other:
                ctx.check(False, "%s acts on the object asked for" % name, n.fn.loc(n), what)
    finally:
        al.PARAMS = None
    derived(ctx, p, bit)
    moves(ctx, p, bit)
    frame(ctx, p)
