"""In each domain an object is driven by one action and one controller.

Decision tables, derived from the control flow graphs over objects, controllers and actions of known contents: what the
activation state of a controller is after each operation, which controller is found for a domain, what an activation does
to the controller active before, which running actions end when an action starts, and what moves an object that a
controller overrides. Every private action is run with a controller overriding its domain and must not move the object.
"""
import itertools
import algebra as al
from flow import NULL, is_c, loc_of
from lookup import Tables, fill, ptr, quiet
from trace import Trace, loc
from G01 import enumerator

ASSUMPTIONS = ["two or three controllers, events and actions stand for any number of them",
               "an action moves its object by the position and speed setters of the object"]
DOMAINS = ("LONG", "LAT", "LIGHT", "ANIM")


def run(ctx):
    r = Tables(ctx, ctx.program(), "scenarioengine::")
    e = lambda en, n: enumerator(r.p, en, n)
    r.e = e
    r.mask = {d: e("ControlDomainMasks", "DOMAIN_MASK_" + d) for d in DOMAINS + ("NONE", "LAT_AND_LONG", "ALL")}
    r.dom = {d: e("ControlDomains", "DOMAIN_" + d) for d in DOMAINS}
    r.OVER, r.ADD = e("ControlOperationMode", "MODE_OVERRIDE"), e("ControlOperationMode", "MODE_ADDITIVE")
    r.ON, r.OFF, r.UNDEF = (e("ControlActivationMode", x) for x in ("ON", "OFF", "UNDEFINED"))
    r.RUN = e("StoryBoardElement::State", "RUNNING")
    masks(r)
    controller(r)
    assigned(r)
    assign_action(r)
    activate_action(r)
    conflicts(r)
    lights(r)
    default(r)
    actions(r)
    r.finish()
    ctx.need("cases", ctx.counts.get("cases analysed", 0), 300)


def put(st, at, **kw):
    for k, v in kw.items():
        st.env[loc("%s.%s" % (at, k))] = v if isinstance(v, tuple) else ("c", v)


def masks(r):
    t = Tables(r.ctx, r.p, "")
    for d in DOMAINS:
        t.value("mask of domain " + d, "ControlDomain2DomainMask", None, {"$0": r.dom[d]}, r.mask[d])
    bits = [r.mask[d] for d in DOMAINS]
    r.ctx.check(len(set(bits)) == 4 and all(b and b & (b - 1) == 0 for b in bits) and r.mask["ALL"] == sum(bits) and r.mask["LAT_AND_LONG"] == r.mask["LAT"] | r.mask["LONG"]
                and r.mask["NONE"] == 0, "domain masks", "EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp", "masks of the domains overlap or do not add up")
    t.finish()


def modes4(r):
    """modes of four domains: all alike, one different, and mixed"""
    out = [(m,) * 4 for m in (r.ON, r.OFF, r.UNDEF)]
    for i in range(4):
        for a, b in ((r.ON, r.UNDEF), (r.OFF, r.UNDEF), (r.ON, r.OFF)):
            out.append((b,) * i + (a,) + (b,) * (3 - i))
    return out + [(r.ON, r.OFF, r.UNDEF, r.ON), (r.OFF, r.ON, r.ON, r.UNDEF), (r.UNDEF, r.ON, r.OFF, r.OFF)]


def controller(r):
    for act, m in itertools.product((0, 1, 2, 3, 12, 15), (1, 2, 3, 4, 15)):
        for n, want in (("IsActiveOnDomains", act & m == m), ("IsNotActiveOnDomains", act & m == 0), ("IsActiveOnAnyOfDomains", act & m != 0), ("IsActiveOnDomainsOnly", act == m)):
            r.value("%s(%d) of a controller active on %d" % (n, m, act), "Controller::" + n, None, {"this.active_domains_": act, "$0": m}, want)
        r.value("domains %d deactivated of %d" % (m, act), "Controller::DeactivateDomains", None,
                {"this.active_domains_": act, "this.align_to_road_heading_on_deactivation_": 0, "$0": m}, act & ~m & 0xffffffff, get=lambda x: x.value("this.active_domains_"))
    for act in (0, 1, 6):
        r.value("active, domains %d" % act, "Controller::IsActive", None, {"this.active_domains_": act}, act != 0)
        r.value("active, domains %d" % act, "Controller::Active", None, {"this.active_domains_": act}, act != 0)
    # activation switches the domains that are named, of those the controller operates on
    for act, op, modes in itertools.product((0, 15), (15, 3), modes4(r)):
        def setup(st, f):
            for i, m in enumerate(modes):
                st.env[("i", loc("M0"), ("c", i))] = ("c", m)
            st.env[loc("$0", f)] = ptr("M0")
        want = act
        for i, m in enumerate(modes):
            b = next(r.mask[d] for d in DOMAINS if r.dom[d] == i)
            if m == r.OFF:
                want &= ~b
            elif m == r.ON and op & b:
                want |= b
        r.value("domains active after activation %s of %d, operating on %d" % (modes, act, op), "Controller::Activate", setup,
                {"this.active_domains_": act, "this.operating_domains_": op, "this.align_to_road_heading_on_deactivation_": 0, "this.align_to_road_heading_on_activation_": 0},
                want & 0xffffffff, get=lambda x: x.value("this.active_domains_"), limit=20)


CTRL = ((1, 0, 5), (2, 1, 6), (0, 0, 5), (8, 1, 7))      # domains, override, type


def control(r, extra=None):
    """watch for controllers C0.. with the contents of CTRL"""
    def watch(name, q, recv, vals, n):
        if extra:
            x = extra(name, q, recv, vals, n)
            if x is not None:
                return x
        if name == "GetType" and recv:
            return "", lambda eng, st: eng.read(st, ("f", Trace.last[0], "#type"))
        if name in ("Deactivate", "UnlinkObject", "LinkObject", "DeactivateDomains") and recv and "C" in recv:
            return "%s %s%s" % (name, recv, "".join(" " + al.poly_str(v) for v in vals if is_c(v))), NULL
        return quiet(name, q, recv, vals, n)
    return watch


def controllers(r, at, cs=CTRL):
    def setup(st, f):
        fill(st, f, at + ".controllers_", [{"active_domains_": d, "mode_": r.OVER if o else r.ADD, "#type": t} for d, o, t in cs], "C")
        for i in range(len(cs)):
            put(st, "C%d" % i, name_="c%d" % i)
    return setup


def assigned(r):
    """look-ups among the controllers of an object"""
    w = control(r)
    U = r.e("Controller::Type", "CONTROLLER_TYPE_UNDEFINED")
    for m, over, t in itertools.product((1, 2, 3, 4, 8), (0, 1), (U, 5, 6)):
        mode = r.OVER if over else r.ADD
        on = lambda c: c[0] & m == m
        some = lambda c: c[0] & m != 0
        is_t = lambda c: t == U or c[2] == t
        for n, sel in (("IsControllerActiveOnDomains", on), ("IsControllerActiveOnAnyOfDomains", some)):
            r.value("%s(%d), type %d" % (n, m, t), "Object::" + n, controllers(r, "this"), {"$0": m, "$1": t}, any(sel(c) and is_t(c) for c in CTRL), watch=w, limit=20)
        for n, sel in (("IsControllerModeOnDomains", on), ("IsControllerModeOnAnyOfDomains", some)):
            if sum(map(sel, CTRL)) > 1:
                continue        # several controllers: those of different modes are not ordered
            r.value("%s(%d, %d), type %d" % (n, mode, m, t), "Object::" + n, controllers(r, "this"), {"$0": mode, "$1": m, "$2": t},
                    any(sel(c) and is_t(c) and c[1] == over for c in CTRL), watch=w, limit=20)
    for m in (1, 2, 3, 4, 8):
        i = next((i for i, c in enumerate(CTRL) if c[0] & m == m), None)
        r.value("controller active on %d" % m, "Object::GetControllerActiveOnDomainMask", controllers(r, "this"), {"$0": m}, None if i is None else "@C%d" % i, watch=w, limit=20)
    for d in DOMAINS:
        i = next((i for i, c in enumerate(CTRL) if c[0] & r.mask[d]), None)
        r.value("controller active on " + d, "Object::GetControllerActiveOnDomain", controllers(r, "this"), {"$0": r.dom[d]}, None if i is None else "@C%d" % i, watch=w, limit=20)
        for ghost in (0, 1):
            def setup(st, f):
                controllers(r, "this")(st, f)
                st.env[loc("this.is_ghost_", f)] = ("c", ghost)
            def isghost(name, q, recv, vals, n):
                return ("", ("c", ghost)) if name == "IsGhost" else None
            want = CTRL[i][2] if i is not None else r.e("Controller::Type", "GHOST_RESERVED_TYPE" if ghost else "CONTROLLER_TYPE_DEFAULT")
            r.value("type of controller active on %s, ghost %d" % (d, ghost), "Object::GetControllerTypeActiveOnDomain", setup, {"$0": r.dom[d]}, want, watch=control(r, isghost), limit=20)
    for t in (5, 6, 7, 9):
        i = next((i for i, c in enumerate(CTRL) if c[2] == t), None)
        r.value("controller of type %d" % t, "Object::GetAssignedControllerOftype", controllers(r, "this"), {"$0": t}, None if i is None else "@C%d" % i, watch=w, limit=20)
        r.value("has controller of type %d" % t, "Object::IsAnyAssignedControllerOfType", controllers(r, "this"), {"$0": t}, i is not None, watch=w, limit=20)
        r.value("has active controller of type %d" % t, "Object::IsAnyActiveControllerOfType", controllers(r, "this"), {"$0": t}, any(c[0] and c[2] == t for c in CTRL), watch=w, limit=20)
    for nm in ("c0", "c2", "c3", "c9"):
        r.value("controller named " + nm, "Object::GetController", controllers(r, "this"), {"$0": nm}, None if nm == "c9" else "@C" + nm[1], watch=w, limit=20)


def assign_action(r):
    """an assignment activates the controller in the domains it names"""
    for modes in modes4(r):
        got = {}

        def watch(name, q, recv, vals, n):
            if name == "Activate":
                a = Trace.last[1][0]

                def ev(eng, st):
                    l = a[1] if a[0] == "L" else None
                    v = eng.aval(st, a)
                    for d in DOMAINS:
                        x = dict(v[1]).get(r.dom[d]) if v[0] == "agg" else eng.read(st, ("i", l, ("c", r.dom[d]))) if l else None
                        got.setdefault(d, []).append(x)
                    return ("c", 0)
                return "activate", ev
            if name == "Active":
                return "", ("c", 0)
            if name in ("AssignController", "GetActiveDomains"):
                return name if name == "AssignController" else "", ("c", 0)
            if name == "Start":
                return "start", NULL
            return quiet(name, q, recv, vals, n)
        c = dict(zip(("this.long_activation_mode_", "this.lat_activation_mode_", "this.light_activation_mode_", "this.anim_activation_mode_"), modes))

        def setup(st, f):
            st.env[loc("this.controller_", f)] = ptr("C0")
            st.env[loc("this.object_", f)] = ptr("O0")
            put(st, "C0", active_domains_=0)
        f, rs, t = r.runs("AssignControllerAction::Start", setup, c, watch=watch, limit=12)
        what = "assignment with activation %s" % (dict(zip(DOMAINS, modes)),)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        for x in rs:
            some = any(m != r.UNDEF for m in modes)
            r.ok(what + ": assigned", f, "AssignController" in x.ev, "the controller is not assigned to the object")
            r.ok(what + ": activated", f, ("activate" in x.ev) == some, "the controller is %sactivated" % ("not " if some else ""))
            r.ok(what + ": starts", f, "start" in x.ev, "the action does not start")
        for d, m in zip(DOMAINS, modes):
            for v in got.get(d, ()):
                r.judge(what + ": domain " + d, f, v, m)


def activate_action(r):
    """an activation takes the domain from the controller that had it, and gives it to the named one"""
    for minor, name, modes in itertools.product((2, 3), ("", "c0", "c2", "c9"), itertools.product((r.ON, r.OFF), repeat=2)):
        on = dict(zip(("LONG", "LAT"), modes))

        def extra(nm, q, recv, vals, n):
            if nm == "GetVersionMinor":
                return "", ("c", minor)
            if nm == "Activate":
                return "activate " + str(recv), ("c", 0)
            if nm in ("Start", "End"):
                return nm, NULL
            if nm in ("GetScenarioReader",):
                return "", ptr("S0")
            return None

        def setup(st, f):
            put(st, "O0", name_="o")
            controllers(r, "O0")(st, f)
            st.env[loc("this.object_", f)] = ptr("O0")
            st.env[loc("this.scenarioEngine_", f)] = ptr("E0")
            st.env[loc("this.ctrl_name_", f)] = ("c", name)
            for d in DOMAINS:
                st.env[("i", loc("this.activation_mode_", f), ("c", r.dom[d]))] = ("c", on.get(d, r.UNDEF))
        sel = {"": "C3", "c0": "C0", "c2": "C2", "c9": None}[name]
        f, rs, t = r.runs("ActivateControllerAction::Start", setup, None, watch=control(r, extra), limit=20)
        what = "activation of controller '%s', %s, OpenSCENARIO 1.%d" % (name, on, minor)
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        had = [(c, d) for d, c in (("LONG", "C0"), ("LAT", "C1")) if on[d] == r.ON] if sel else []
        want = {"DeactivateDomains %s %d" % (c, r.mask[d]) for c, d in had} if minor >= 3 else {"Deactivate " + c for c, d in had[:1]}
        for x in rs:
            r.ctx.count("cases analysed")
            off = {e for e in x.ev if e.startswith("Deactivate")}
            # giving up what it has itself before it is activated there again makes no difference
            mine = {"DeactivateDomains %s %d" % (sel, r.mask[d]) for d in on if on[d] == r.ON} | {"Deactivate %s" % sel}
            r.ok(what + ": deactivated", f, off - mine == want - mine, "deactivates %s instead of %s" % (sorted(off), sorted(want)))
            r.ok(what + ": activated", f, [e for e in x.ev if e.startswith("activate")] == (["activate " + sel] if sel else []), "activates %s" % [e for e in x.ev if e.startswith("activate")])
            r.ok(what + ": order", f, x.ev == tuple(sorted(x.ev, key=lambda e: e.startswith(("activate", "Start", "End")))), "deactivates after the activation: %s" % (x.ev,))
    # the constructor keeps each mode for its domain
    f = next((f for f in r.p.q("scenarioengine::ActivateControllerAction::ActivateControllerAction") if len(f.params) == 6), None)
    if f:
        order = ("LAT", "LONG", "LIGHT", "ANIM")
        f2, rs, t = r.runs("ActivateControllerAction::ActivateControllerAction", None, {"$%d" % (i + 1): 40 + i for i in range(4)}, pick=lambda g: len(g.params) == 6)
        for x in rs:
            for i, d in enumerate(order):
                r.judge("activation mode of domain %s" % d, f, x.eng.read(x.st, ("i", loc("this.activation_mode_", f), ("c", r.dom[d]))), 40 + i)


def conflicts(r):
    """an action that starts ends the running actions of its object in the same domain, and nothing else"""
    LS, SP, GL = r.e("OSCAction::ActionType", "LIGHT_STATE_ACTION"), r.e("OSCAction::ActionType", "LONG_SPEED"), r.e("OSCAction::ActionType", "GLOBAL_ACTION_BASE_INDEX")
    PAR = r.e("Event::Priority", "PARALLEL")
    STANDBY = r.e("StoryBoardElement::State", "STANDBY")
    FOG, IND = r.e("Object::VehicleLightType", "FOG_LIGHTS"), r.e("Object::VehicleLightType", "INDICATOR_LEFT")
    for mine, dom, run, typ, kind, light in itertools.product((1, 2, 3, 4, 0), (1, 2, 3, 4, 0), (0, 1), ("private", "global"), ("init", "event", "self"), (0, 1)):
        if (mine == 4) != (dom == 4) and light or kind == "self" and (dom != mine or typ != "private") or kind == "init" and typ == "global":
            continue

        def watch(name, q, recv, vals, n):
            if name in ("Start", "End") and recv:
                w = recv.split("(")[-1].strip("*)&")
                if w == "this":
                    return "this." + name, NULL, [("this.state_", ("c", r.RUN))] if name == "Start" else []
                return "%s.%s" % (w, name), NULL
            if name == "CheckConflictingLights":
                return "", ("c", light)
            if name == "IsGhost":
                return "", ("c", 0)
            if name in ("AnyChildRunning",):
                return "", ("c", 0)
            if name in ("LightType2Str", "ControlDomainMask2Str"):
                return "", NULL
            return quiet(name, q, recv, vals, n)

        def setup(st, f):
            put(st, "M0", name_="m")
            st.env[loc("this.parent_", f)] = ptr("M0")
            st.env[loc("this.state_", f)] = ("c", STANDBY)
            st.env[loc("this.priority_", f)] = ("c", PAR)
            fill(st, f, "this.action_", [{"domains_": mine, "action_type_": LS if mine == 4 else SP, "state_": r.RUN if kind == "self" and run else STANDBY}], "A")
            put(st, "A0", object_=ptr("O0"))
            put(st, "O0", id_=1)
            put(st, "O1", id_=2)
            other = [{"domains_": dom, "action_type_": (LS if dom == 4 else SP) if typ == "private" else GL, "state_": r.RUN if run else STANDBY}]
            # an idle action before the one looked at
            idle = [{"domains_": 15, "action_type_": SP, "state_": STANDBY}]
            fill(st, f, "O0.initActions_", idle + other if kind == "init" else [], "I")
            fill(st, f, "O0.objectEvents_", [{}, {}] if kind != "init" else [], "E")
            fill(st, f, "E0.action_", idle, "Y")
            fill(st, f, "E1.action_", idle + other if kind == "event" else [], "X")
            if kind == "self":
                st.env[loc("E1.action_.#size")] = ("c", 1)
                st.env[loc("E1.action_[0]")] = ptr("A0")
            for a in ("Y0", "X0", "X1"):
                put(st, a, object_=ptr("O0"), name_="x")
        f, rs, t = r.runs("Event::Start", setup, {"$0": 7.0}, watch=watch, limit=8)
        what = "start of an action on domains %d, %s action on %d %s%s" % (mine, kind, dom, "running" if run else "idle", ", lights in conflict" if light else "")
        r.ctx.check(bool(rs), what + ": returns", f.loc(), "does not return")
        end = bool(run and typ == "private" and kind != "self" and mine & dom and (dom != 4 or light))
        w = "I1.End" if kind == "init" else "X1.End"
        for x in rs:
            r.ctx.count("cases analysed")
            ends = [e for e in x.ev if e.endswith(".End")]
            r.ok(what, f, ends == ([w] if end else []), "ends %s" % (ends or "nothing"))
            r.ok(what + ": starts", f, "A0.Start" in x.ev, "the action does not start")
            if end and w in x.ev and "A0.Start" in x.ev:
                r.ok(what + ": order", f, x.ev.index(w) < x.ev.index("A0.Start"), "the running action ends after the start of the new one")


def lights(r):
    T = {n: r.e("Object::VehicleLightType", n) for n in ("LOW_BEAM", "FOG_LIGHTS", "FOG_LIGHTS_FRONT", "FOG_LIGHTS_REAR", "WARNING_LIGHTS", "INDICATOR_LEFT", "INDICATOR_RIGHT", "BRAKE_LIGHTS")}
    flash = {"WARNING_LIGHTS", "INDICATOR_LEFT", "INDICATOR_RIGHT"}
    fog = {"FOG_LIGHTS_FRONT", "FOG_LIGHTS_REAR"}
    for a, b in itertools.product(T, T):
        def setup(st, f):
            st.env[loc("this.actionVehicleLightStatus_", f) and ("f", loc("this.actionVehicleLightStatus_", f), "type")] = ("c", T[a])
            st.env[loc("$0", f)] = ptr("L0")
            st.env[loc("L0")] = ("c", T[b])
        want = a == b or {a, b} <= flash or (a == "FOG_LIGHTS" and b in fog) or (b == "FOG_LIGHTS" and a in fog)
        r.value("lights %s and %s in conflict" % (a, b), "LightStateAction::CheckConflictingLights", setup, None, want)


def default(r):
    """default motion: by speed and time, where nothing else moves the object"""
    LON, LAT = r.e("Object::DirtyBit", "LONGITUDINAL"), r.e("Object::DirtyBit", "LATERAL")
    for dirty, over, tow in itertools.product((0, LON, LAT), (0, 1), (0, 1)):
        def watch(name, q, recv, vals, n):
            if name == "IsControllerModeOnDomains" and all(is_c(v) for v in vals[:2]):
                return "", ("c", int(over and vals[0][1] == r.OVER and vals[1][1] == r.mask["LONG"]))
            if name == "TowVehicle":
                return "", ptr("V0") if tow else NULL
            if name == "MoveAlongS":
                return "move " + al.poly_str(vals[0]), ("c", 0)
            if name == "Check" and vals and is_c(vals[0]):
                return "", ("c", int(bool(dirty & vals[0][1])))
            if name == "SetBits":
                return "dirty " + al.poly_str(vals[0]), NULL
            return quiet(name, q, recv, vals, n)

        def setup(st, f):
            st.env[loc("$0", f)] = ptr("O0")
            put(st, "O0", speed_=3.0)
        f, rs, t = r.runs("ScenarioEngine::defaultController", setup, {"$1": 0.5}, watch=watch)
        what = "default motion, moved %d, overridden %d, towed %d" % (dirty, over, tow)
        want = not dirty & LON and not over and not tow
        for x in rs:
            r.ctx.count("cases analysed")
            mv = [e for e in x.ev if e.startswith("move")]
            r.ok(what, f, mv == (["move 3/2"] if want else []), "moves by %s" % mv)


MOTION = ("SetSpeed", "SetLanePos", "SetTrackPos", "SetInertiaPos", "SetInertiaPosMode", "MoveAlongS", "MoveRouteDS", "SetLanePosMode", "SetTrackPosMode", "SetRoutePosition", "SetRouteS",
          "MoveTrajectoryDS", "SetTrajectoryS", "SetTrajectoryPosByTime", "SetHeadingRelative", "SetHeading", "SetHeadingRelativeRoadDirection", "SetOffset", "SetT", "SetS", "ForceLaneId", "SetLaneId",
          "MoveRoute", "SetRouteLanePosition", "EvaluateShape", "SetTrajectoryPos", "SetAcc", "SetVel", "XYZ2TrackPos", "operator=", "TeleportTo")


# the domain of each kind of action: OpenSCENARIO 1.x, "actions and domains"
DOMAIN = {"LongSpeedAction": "LONG", "LongSpeedProfileAction": "LONG", "LongDistanceAction": "LONG", "SynchronizeAction": "LONG", "AcquirePositionAction": "LONG", "LatLaneChangeAction": "LAT",
          "LatLaneOffsetAction": "LAT", "LatDistanceAction": "LAT", "TeleportAction": "LAT_AND_LONG", "FollowTrajectoryAction": "LAT_AND_LONG", "LightStateAction": "LIGHT"}


def actions(r):
    """an action leaves the object alone while a controller overrides its domain, and only then"""
    n = 0
    for cls in sorted(r.p.subclasses("scenarioengine::OSCPrivateAction")):
        short = cls.rsplit("::", 1)[-1]
        doms = domain_of(r, cls)
        want = r.mask[DOMAIN.get(short, "NONE")]
        if doms and (short in DOMAIN or doms == {0}):
            r.ctx.check(doms == {want}, "domains of a %s: %s" % (short, sorted(doms)), "EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp",
                        "is constructed for domains %s instead of %d" % (sorted(doms), want))
        dom = want
        if not dom or dom & r.mask["LIGHT"]:
            continue
        for op in ("Start", "Step"):
            if r.p.q(cls + "::" + op):
                n += 1
                overridden(r, short, op, dom)
    r.ctx.need("actions that move an object", n, 6)


def overridden(r, short, op, dom):
    free = None
    for over in (0,) + ((1, 2, 3) if dom == 3 else (1, 2)):
        def watch(name, q, recv, vals, node):
            if name.startswith("IsControllerModeOn") and len(vals) > 1 and all(is_c(v) for v in vals[:2]):
                m = vals[1][1]
                hit = m & over == m if name == "IsControllerModeOnDomains" else m & over != 0
                return "", ("c", int(bool(hit and vals[0][1] == r.OVER)))
            if name in MOTION and recv and "object_" in recv and "target" not in recv and "master" not in recv:
                return "move " + name, ("c", 0)
            return quiet(name, q, recv, vals, node)
        f, rs, t = r.runs("%s::%s" % (short, op), None, None, watch=watch, limit=4, inline=2)
        mv = sorted({e for x in rs for e in x.ev if e.startswith("move")})
        if not over:
            free = mv
            r.ctx.count("operations that move an object" if mv else "operations without motion")
            continue
        what = "%s of a %s, controller overrides %s" % (op, short, {1: "LONG", 2: "LAT", 3: "LONG and LAT"}[over])
        r.ctx.count("cases analysed")
        if over & dom == dom:
            r.ctx.check(not mv, what, f.loc(), "still calls %s on the object" % ", ".join(mv))
        elif not over & dom:
            r.ctx.check(bool(mv) == bool(free), what, f.loc(), "does not move the object any more")


def domain_of(r, cls):
    """the domains a class of actions is constructed with"""
    out = set()
    for f in r.p.q(cls + "::" + cls.rsplit("::", 1)[-1]):
        for nd in f.nodes:
            if nd.k in ("ctor", "construct", "call") and "OSCPrivateAction" in (nd.g("q") or "") and nd.c:
                v = f.nodes[nd.c[-1]]
                while v.k in ("cast", "implicit") and v.c and "v" not in v.a:
                    v = f.nodes[v.c[0]]
                if "v" in v.a:
                    out.add(int(v.a["v"]))
    return out
