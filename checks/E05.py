"""Entity conditions: each triggering entity is judged on its own, verdicts combine by the any/all rule.

Every condition on triggering entities is analysed for two entities in every combination of activity and of situations in
which the condition holds or does not hold for the entity (including those in which its quantity is undefined). The result
has to be the disjunction (any) or conjunction (all) of the verdicts of the active entities, and the entities registered as
triggering have to be entities for which the condition held. The quantity compared is traced to the entity's own state.
"""
import itertools
import re
import algebra as al
from extract import Broken
from trace import Trace, explore, loc
from flow import NULL

ASSUMPTIONS = [
    "two triggering entities stand for any number",
    "distances, collisions and angles between objects are computed correctly (geometry is not analysed)",
    "an inactive triggering entity does not take part",
]
NS = "scenarioengine::"
ENT = "this.triggering_entities_.entity_[%d].object_"
IDX = re.compile(r"triggering_entities_\.entity_\[(\d+)\]")
RULE = [("EvaluateRule", 1)], [("EvaluateRule", 0)]


def W(verdict, name, calls=(), fields=()):
    return dict(v=verdict, name=name, calls=dict(calls), fields=dict(fields))


def cmpw(yes="holds", no="does not hold", **extra):
    return [W(True, yes, {"EvaluateRule": 1, **extra}), W(False, no, {"EvaluateRule": 0, **extra})]


# class -> (constants of the condition, situations of an entity)
KINDS = {
    "TrigByTimeHeadway": ({}, [W(True, "headway holds", {"EvaluateRule": 1, "Distance": ("out", 10.0)}, {"speed_": 5.0}),
                           W(False, "headway does not hold", {"EvaluateRule": 0, "Distance": ("out", 10.0)}, {"speed_": 5.0}),
                           W(False, "target behind", {"EvaluateRule": 1, "Distance": ("out", -10.0)}, {"speed_": 5.0}),
                           W(False, "standing still", {"EvaluateRule": 1, "Distance": ("out", 10.0)}, {"speed_": 0.0}),
                           W(False, "reversing", {"EvaluateRule": 1, "Distance": ("out", 10.0)}, {"speed_": -5.0})]),
    "TrigByTimeToCollision": ({"this.object_": "ptr"},
                              [W(True, "ttc holds", {"EvaluateRule": 1, "TimeToCollision": ("out", 3.0)}),
                               W(False, "ttc does not hold", {"EvaluateRule": 0, "TimeToCollision": ("out", 3.0)}),
                               W(False, "ttc undefined", {"EvaluateRule": 1, "TimeToCollision": ("out", -1.0)})]),
    "TrigByTimeToCollision ": ({"this.object_": "null"},
                               [W(True, "ttc of a place holds", {"EvaluateRule": 1, "Distance": ("out", 10.0)}, {"speed_": 5.0}),
                                W(False, "ttc of a place does not hold", {"EvaluateRule": 0, "Distance": ("out", 10.0)}, {"speed_": 5.0}),
                                W(True, "reversing to a place behind", {"EvaluateRule": 1, "Distance": ("out", -10.0)}, {"speed_": -5.0}),
                                W(False, "place behind", {"EvaluateRule": 1, "Distance": ("out", -10.0)}, {"speed_": 5.0}),
                                W(False, "driving away backwards", {"EvaluateRule": 1, "Distance": ("out", 10.0)}, {"speed_": -5.0}),
                                W(False, "standing", {"EvaluateRule": 1, "Distance": ("out", 10.0)}, {"speed_": 0.0})]),
    "TrigByReachPosition": ({"this.tolerance_": 1.0, "this.checkOrientation_": 0},
                            [W(True, "reached", {"getRelativeDistance": 0.5}), W(False, "not reached", {"getRelativeDistance": 5.0})]),
    "TrigByReachPosition ": ({"this.tolerance_": 1.0, "this.checkOrientation_": 1, "this.angularTolerance_": 0.05},
                             [W(True, "reached, aligned", {"getRelativeDistance": 0.5}, {"pos_.h_": 0.01, "pos_.p_": 0.0, "pos_.r_": 0.0}),
                              W(False, "reached, other heading", {"getRelativeDistance": 0.5}, {"pos_.h_": 0.4, "pos_.p_": 0.0, "pos_.r_": 0.0}),
                              W(False, "reached, other pitch", {"getRelativeDistance": 0.5}, {"pos_.h_": 0.0, "pos_.p_": 0.4, "pos_.r_": 0.0}),
                              W(False, "reached, other roll", {"getRelativeDistance": 0.5}, {"pos_.h_": 0.0, "pos_.p_": 0.0, "pos_.r_": 0.4}),
                              W(False, "not reached, aligned", {"getRelativeDistance": 5.0}, {"pos_.h_": 0.0, "pos_.p_": 0.0, "pos_.r_": 0.0})]),
    "TrigByDistance": ({}, cmpw(Distance=0)),
    "TrigByRelativeDistance": ({"this.object_": "ptr"}, cmpw(Distance=0)),
    "TrigByCollision": ({"this.object_": "ptr", "this.objectType_": "TYPE_NONE"},
                        [W(True, "collides", {"Collision": 1}), W(False, "does not collide", {"Collision": 0})]),
    "TrigByTraveledDistance": ({"this.value_": 100.0}, [W(True, "travelled far enough", {}, {"odometer_": 150.0}), W(True, "exactly at the limit", {}, {"odometer_": 100.0}),
                                                        W(False, "not far enough", {}, {"odometer_": 50.0})]),
    "TrigByEndOfRoad": ({"this.duration_": 2.0, "$0": 10.0},
                        [W(True, "at the end for long", {"IsEndOfRoad": 1, "GetEndOfRoadTimestamp": 5.0}), W(False, "at the end shortly", {"IsEndOfRoad": 1, "GetEndOfRoadTimestamp": 9.0}),
                         W(False, "not at the end", {"IsEndOfRoad": 0, "GetEndOfRoadTimestamp": 5.0})]),
    "TrigByStandStill": ({"this.duration_": 2.0, "$0": 10.0},
                         [W(True, "standing for long", {"IsStandStill": 1, "GetStandStillTimestamp": 5.0}), W(False, "standing shortly", {"IsStandStill": 1, "GetStandStillTimestamp": 9.0}),
                          W(False, "moving", {"IsStandStill": 0, "GetStandStillTimestamp": 5.0})]),
    "TrigByOffRoad": ({"this.duration_": 2.0, "$0": 10.0},
                      [W(True, "off road for long", {"IsOffRoad": 1, "GetOffRoadTimestamp": 5.0}), W(False, "off road shortly", {"IsOffRoad": 1, "GetOffRoadTimestamp": 9.0}),
                       W(False, "on road", {"IsOffRoad": 0, "GetOffRoadTimestamp": 5.0})]),
    "TrigByAcceleration": ({}, cmpw()),
    "TrigBySpeed": ({}, cmpw()),
    "TrigByRelativeSpeed": ({"this.object_": "ptr"}, cmpw()),
    "TrigByAngle": ({"this.tolerance_": 0.1, "this.cs_": "CS_WORLD", "this.angle_type_": "AngleType::HEADING"},
                    [W(True, "angle within tolerance", {"GetAbsAngleDifference": 0.05}), W(False, "angle off", {"GetAbsAngleDifference": 1.0})]),
}
DIR = ("LONGITUDINAL", "LATERAL", "VERTICAL", "UNDEFINED_DIRECTION")
QUANT = {  # what is compared with the limit, by setting; E the triggering entity, O the reference entity
    "TrigBySpeed": [({"this.direction_": "Direction::" + d}, t) for d, t in zip(DIR, ("E.pos_.GetVelLong", "E.pos_.GetVelLat", "E.pos_.velZ_", "E.speed_"))],
    "TrigByAcceleration": [({"this.direction_": "Direction::" + d}, t) for d, t in zip(DIR, ("E.pos_.GetAccLong", "E.pos_.GetAccLat", "E.pos_.accZ_", "E.pos_.GetAcc"))],
    "TrigByRelativeSpeed": [({"this.direction_": "Direction::" + d}, t) for d, t in zip(DIR, (
        "cos(O.pos_.h_) * E.pos_.velX_ + sin(O.pos_.h_) * E.pos_.velY_ - O.pos_.GetVelLong",
        "cos(O.pos_.h_) * E.pos_.velY_ - sin(O.pos_.h_) * E.pos_.velX_ - O.pos_.GetVelLat",
        "E.pos_.velZ_ - O.pos_.velZ_", "E.speed_ - O.speed_"))],
    "TrigByTimeHeadway": [({"E.speed_": 5.0, "DIST": 10.0}, "2"), ({"E.speed_": 4.0, "DIST": 10.0}, "2.5")],
    "TrigByTimeToCollision": [({"DIST": 3.0}, "3")],
    "TrigByDistance": [({"DIST": 3.0}, "3"), ({"DIST": -3.0}, "3")],
    "TrigByRelativeDistance": [({"DIST": 3.0}, "3"), ({"DIST": -3.0}, "3")],
    "TrigByAngle": [({"this.cs_": cs, "this.angle_type_": "AngleType::" + t}, "E.pos_.%s_" % x + (" - E.pos_.Get%sRoad%s" % (x.upper(), sfx) if sfx is not None else ""))
                    for cs, sfx in (("CS_WORLD", None), ("CS_ROAD", ""), ("CS_LANE", "InDrivingDirection"))
                    for t, x in (("HEADING", "h"), ("PITCH", "p"), ("ROLL", "r"))],
}
ACCESS = re.compile(r"Get(Vel|Acc)(Long|Lat)$|GetAcc$|Get[HPR]Road(InDrivingDirection)?$")


def enumval(p, name, hint=""):
    hint, _, name = name.rpartition("::") if "::" in name else (hint, "", name)
    for q, e in sorted(p.enums.items(), key=lambda x: hint not in x[0]):
        for k, v in e:
            if k.rsplit("::", 1)[-1] == name:
                return v
    raise Broken("enumerator %s not found" % name)


def cur(st):
    for e in reversed(st.ev):
        if e[0] == "@":
            return int(e[1:])
    return 0


def watcher(worlds, active, log=None):
    def watch(name, q, r, vals, n):
        m = None
        for x in [r] + [al.poly_str(v) for v in vals]:
            m = m or (IDX.search(x) if x else None)
        tag = "@%s" % m.group(1) if m else ""

        def pick(eng, st):
            i = int(m.group(1)) if m else cur(st)
            return worlds[i]["calls"].get(name) if i < len(worlds) else None

        if name == "IsActive":
            if m:
                return tag, ("c", int(active[int(m.group(1))]))
            return "", ("c", 1)
        if name == "GetAngleInIntervalMinusPIPlusPI":
            return "", vals[0]
        if name in ("GetH", "GetP", "GetR") and not m:
            return "", ("c", 0.0)
        if name in ("push_back", "emplace_back") and r and r.endswith("triggered_by_entities_"):
            return "push%s" % (m.group(1) if m else "?"), NULL
        if name in ("clear",) and r and r.endswith("triggered_by_entities_"):
            return "clear", NULL
        if name == "EvalDone":
            return None
        if any(name in w["calls"] for w in worlds):
            if log is not None and name == "EvaluateRule":
                log.append([al.poly_str(v) for v in vals])
            return tag, lambda eng, st: ("c", pick(eng, st))
        if name in ("abs", "fabs", "std::fabs") and vals and vals[0][0] == "c":
            return "", ("c", abs(vals[0][1]))
        if "ogger" in q or name in ("EvaluateRelation", "format"):
            return "", NULL
        return None
    return watch


def run(ctx):
    p = ctx.program()
    RULES = {"ANY": enumval(p, "ANY", "TriggeringEntitiesRule"), "ALL": enumval(p, "ALL", "TriggeringEntitiesRule")}
    base = NS + "TrigByEntity"
    seen = 0
    for cls in sorted(p.subclasses(base)):
        short = cls.rsplit("::", 1)[-1]
        fs = p.q(cls + "::CheckCondition")
        if not fs:
            continue
        ctx.count("entity conditions")
        for g in p.q(cls + "::GetAdditionalLogInfo"):
            def watch(name, q, r, vals, n):
                if r and r.endswith("triggered_by_entities_") and name in ("operator[]", "front", "back", "at"):
                    return "access"
                return None
            for r in explore(p, g, Trace(watch), {"this.triggered_by_entities_.#size": 0}):
                ctx.check("access" not in r.ev, short + ": report without triggering entity", g.loc(), "reads a triggering entity where there may be none")
        seen += 1
        if short == "TrigByRelativeClearance":
            clearance(ctx, p, fs[0], RULES)
            continue
        if short not in KINDS:
            ctx.count("entity conditions without situations")
            continue
        f = fs[0]
        quantities(ctx, p, f, short)
        for k in KINDS:
            if k.strip() == short:
                combine(ctx, p, f, short, KINDS[k][0], KINDS[k][1], RULES)
    if not seen:
        raise Broken("no entity conditions found")


def quantities(ctx, p, f, short):
    for consts, want in QUANT.get(short, ()):
        got = []

        def watch(name, q, r, vals, n):
            if name == "IsActive":
                return "", ("c", 1)
            if ACCESS.match(name) and r:
                return "", ("init", ("g", r + "." + name))
            if name in ("EvaluateRule", "GetAbsAngleDifference"):
                got.append(vals)
                return "", ("call", name, (), 0, 0)
            if name == "GetAngleInIntervalMinusPIPlusPI":
                return "", vals[0]
            if name in ("abs", "fabs") and al.const(al.poly(vals[0])) is not None:
                return "", ("c", float(abs(al.const(al.poly(vals[0])))))
            if "ogger" in q or name in ("EvaluateRelation", "format"):
                return "", NULL
            return None
        c, fa = {"this.triggering_entities_.entity_.#size": 1}, {"this.object_": True}
        dist = consts.get("DIST")
        for k, v in consts.items():
            if k != "DIST":
                c[k.replace("E.", (ENT % 0) + "->")] = enumval(p, v) if isinstance(v, str) else v
        w = W(True, "", {"Distance": ("out", dist), "TimeToCollision": ("out", dist)} if dist is not None else {})
        explore(p, f, Client(watch, (w, w)), c, fa)
        e = al.pstr(al.expect(want)).replace("E.", (ENT % 0) + ".").replace("O.", "this.object_.")
        setting = ", ".join("%s %s" % (k.split(".")[-1].strip("_").lower(), str(v).split("::")[-1]) for k, v in consts.items())
        what = "%s, %s" % (short, setting)
        ctx.count("quantities traced", len(got))
        ctx.check(bool(got), what + ": compared", f.loc(), "no comparison with the limit is made")
        for vals in got:
            s = al.poly_str(vals[0])
            ctx.check(al.pstr(norm(s)) == al.pstr(norm(e)) or s == "?", what + ": quantity", f.loc(), "compares %s instead of %s" % (s, e))
            ctx.check(al.poly_str(vals[1]) == "this.value_", what + ": limit", f.loc(), "compares with %s instead of the specified value" % al.poly_str(vals[1]))
            if len(vals) > 2:
                ctx.check(al.poly_str(vals[2]) == "this.rule_", what + ": rule", f.loc(), "compares by %s instead of the specified rule" % al.poly_str(vals[2]))


def clearance(ctx, p, f, RULES):
    """one other object; for each triggering entity it is in the area, out of the area, or the entity itself"""
    OBJ = "this.storyBoard_->entities_->object_[0]"
    for (rn, rv), w in itertools.product(RULES.items(), itertools.product(("occupied", "clear", "only itself", "no road"), repeat=2)):
        if w == ("only itself",) * 2:
            continue

        def watch(name, q, r, vals, n):
            i = next((int(m.group(1)) for m in [IDX.search(x or "") for x in [r] + [al.poly_str(v) for v in vals]] if m), None)
            if name == "IsActive":
                return "", ("c", 1)
            if name == "GetRoadById" and i is not None:
                return "", NULL if w[i] == "no road" else ("init", ("g", "ROAD"))
            if name in ("Delta", "FreeSpaceDistanceObjectRoadLane") and i is not None:
                found = w[i] == "occupied"

                def out(eng, st):
                    res = []
                    for a, v in zip(watch.args, vals):
                        l = a[1] if a[0] == "L" and watch.pm[watch.args.index(a)] == "r" else v[1] if v[0] == "&" else None
                        if l is not None and l[0] == "v":
                            res += [(("f", l, k), ("c", x)) for k, x in (("ds", 1.0), ("dLaneId", 0), ("dOppLane", 0))]
                    return res
                return "", ("c", int(found) if name == "Delta" else int(found) - 1), out
            if name == "GetDrivingLaneByIdx":
                return "", ("init", ("g", "LANE"))
            if name == "GetNumberOfDrivingLanes":
                return "", ("c", 1)
            if name in ("GetId", "GetLaneId"):
                return "", ("c", -1)
            if name in ("push_back", "emplace_back") and r and r.endswith("triggered_by_entities_"):
                return "push%s" % i, NULL
            if "ogger" in q:
                return "", NULL
            return None

        class C(Client):
            def call(self, eng, st, n, q, recv, args):
                watch.args, watch.pm = args, (n.g("pm") or "").ljust(len(args), "v")
                return Trace.call(self, eng, st, n, q, recv, args)

        def more(st):
            st.facts[("nz", ("init", ("g", "ROAD")))] = True
            o = ("init", loc(OBJ))
            for i in sorted((0, 1), key=lambda i: w[i] != "only itself"):
                e = loc(ENT % i)
                if w[i] == "only itself":
                    st.env[loc(OBJ)] = ("init", e)
                else:
                    o = st.env.get(loc(OBJ), o)
                    for a, b in ((o, ("init", e)), (("init", e), o)):
                        st.facts[("eq", a, b)] = False
        c = {"this.triggering_entities_.entity_.#size": 2, "this.triggering_entity_rule_": rv, "this.triggering_entities_.rule_": rv, "this.objects_.#size": 0,
             "this.storyBoard_->entities_->object_.#size": 1, "this.freeSpace_": 0, "this.from_": 0, "this.to_": 0, "this.oppositeLanes_": 1,
             "this.distanceForward_": 10.0, "this.distanceBackward_": 10.0}
        ver = [x in ("clear", "only itself") for x in w]
        want = any(ver) if rn == "ANY" else all(ver)
        what = "TrigByRelativeClearance, rule %s, entities: %s" % (rn, ", ".join(w))
        ctx.count("combinations")
        for r in explore(p, f, C(watch, ()), c, {}, more):
            v = r.truth(r.ret)
            ctx.check(v is None or v == want, what, f.loc(), "evaluates to %s instead of %s" % (v, want))


def norm(s):
    return al.atom("+".join(sorted(s.replace(" - ", " + -").split(" + "))))


def combine(ctx, p, f, short, consts, worlds, RULES):
    for (rn, rv), w0, w1, a0, a1 in itertools.product(RULES.items(), worlds, worlds, (1, 0), (1, 0)):
        ws, act = (w0, w1), (a0, a1)
        c, fa = {"this.triggering_entities_.entity_.#size": 2, "this.triggering_entity_rule_": rv, "this.triggering_entities_.rule_": rv}, {}
        for k, v in consts.items():
            if v == "ptr":
                fa[k] = True
            elif v == "null":
                c[k] = 0
            elif isinstance(v, str):
                c[k] = enumval(p, v, "")
            else:
                c[k] = v
        for i, w in enumerate(ws):
            for k, v in w["fields"].items():
                c[(ENT % i) + "->" + k] = v
        t = Client(watcher(ws, act), ws)
        want = [w["v"] for w, a in zip(ws, act) if a]
        want = (any(want) if rn == "ANY" else bool(want) and all(want))
        what = "%s, rule %s, entities: %s" % (short, rn, ", ".join((w["name"] if a else "inactive") for w, a in zip(ws, act)))
        rs = explore(p, f, t, c, fa)
        ctx.count("combinations")
        ctx.check(bool(rs), what, f.loc(), "the evaluation does not return")
        for r in rs:
            v = r.truth(r.ret)
            if v is None:
                ctx.count("undetermined results")
            ctx.check(v is None or v == want, what, f.loc(), "evaluates to %s instead of %s" % (v, want))
            pushed = [e[4:] for e in r.ev if e.startswith("push")]
            ok = all(x.isdigit() and ws[int(x)]["v"] and act[int(x)] for x in pushed)
            ctx.check(ok, what + ": triggering entities", f.loc(), "an entity is registered as triggering for which the condition does not hold")
            if want:
                need = {str(i) for i, w in enumerate(ws) if act[i] and w["v"]}
                ctx.check(bool(pushed) and (rn == "ANY" or set(pushed) == need), what + ": triggering entities", f.loc(), "a triggering entity is not registered")
            ctx.check("clear" in r.ev and all(e != "clear" for e in r.ev[r.ev.index("clear") + 1:]) if "clear" in r.ev else False,
                      what + ": earlier entities", f.loc(), "triggering entities of earlier evaluations are kept")


class Client(Trace):
    """calls with a result parameter store the situation's value there"""
    limit = 16

    def __init__(self, watch, worlds):
        Trace.__init__(self, watch)
        self.worlds = worlds

    def call(self, eng, st, n, q, recv, args):
        name = q.rsplit("::", 1)[-1]
        outs = [w["calls"][name] for w in self.worlds if isinstance(w["calls"].get(name), tuple)]
        if outs:
            txt = [al.path(recv) if recv is not None else ""]
            m = IDX.search(txt[0])
            i = int(m.group(1)) if m else cur(st)
            spec = self.worlds[i]["calls"][name]
            pm = n.g("pm") or ""
            refs = [a for a, k in zip(args, pm) if k == "r" and a[0] == "L"]
            if refs:
                eng.write(st, refs[-1][1], ("c", spec[1]), n)
            st.ev = st.ev + ("@%d" % i,)
            return [(st, NULL)]
        return Trace.call(self, eng, st, n, q, recv, args)
