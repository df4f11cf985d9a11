"""Rules, edges, delays, groups and triggers.

Decision tables derived from the code for the comparison rules of all value types, the edge evaluation, the evaluation of
one condition, of a condition group (conjunction), of a trigger (disjunction), and of conditions on storyboard element
states, parameters, variables and simulation time, compared with their specified meaning.
"""
import itertools
import operator
import algebra as al
from extract import Broken
from trace import Trace, explore, loc
from flow import NULL

ASSUMPTIONS = ["groups and triggers are analysed for none and for two conditions and groups", "the delay buffer is analysed for time moving forward, with the histories enumerated in the check"]
NS = "scenarioengine::"
C = NS + "OSCCondition::"
RULES = {"GREATER_THAN": operator.gt, "GREATER_OR_EQUAL": operator.ge, "LESS_THAN": operator.lt, "LESS_OR_EQUAL": operator.le,
         "EQUAL_TO": operator.eq, "NOT_EQUAL_TO": operator.ne}
STR = {"operator>": operator.gt, "operator<": operator.lt, "operator>=": operator.ge, "operator<=": operator.le, "operator==": operator.eq, "operator!=": operator.ne}


CONV = {"strtoi": "INT", "stoi": "INT", "atoi": "INT", "strtod": "REAL", "stod": "REAL", "atof": "REAL"}


def enumval(p, name, hint):
    for q, e in sorted(p.enums.items(), key=lambda x: hint not in x[0]):
        for k, v in e:
            if k.rsplit("::", 1)[-1] == name:
                return v
    raise Broken("enumerator %s not found" % name)


def quiet(name, q, r, vals, n):
    if "ogger" in q or name in ("format", "Log"):
        return "", NULL
    if name in STR and len(vals) == 2 and all(v[0] == "c" and isinstance(v[1], str) for v in vals):
        return "", ("c", int(STR[name](vals[0][1], vals[1][1])))
    if name in CONV and vals:
        a = al.poly_str(vals[0])
        return "", ("init", ("g", "%s(%s)" % (CONV[name], a[6:-1] if a.startswith("c_str(") else a)))
    return None


class T(Trace):
    limit = 14


def truth(ctx, p, f, t, consts, want, what, text, facts=None, more=None):
    rs = explore(p, f, t, consts, facts, more)
    ctx.count("cases analysed")
    ctx.check(bool(rs), what, f.loc(), "does not return")
    for r in rs:
        v = r.truth(r.ret) if r.ret is not None else None
        if v is None:
            ctx.count("undetermined results")
        ctx.check(v is None or v == want, what, f.loc(), text % v)
    return rs


def run(ctx):
    p = ctx.program()
    rules(ctx, p)
    edges(ctx, p)
    evaluate(ctx, p)
    groups(ctx, p)
    states(ctx, p)
    values(ctx, p)
    delay(ctx, p)


def rules(ctx, p):
    fs = p.q("scenarioengine::EvaluateRule") + p.q("EvaluateRule")
    if not fs:
        raise Broken("EvaluateRule not found")
    kinds = set()
    for f in fs:
        ty = f.vars[f.params[0]].t
        if "double" in ty:
            kind, pairs = "real", [(1.0, 2.0), (2.0, 1.0), (2.0, 2.0), (-3.0, 1.5), (2.0, 2.0 + 1e-9), (2.0 + 1e-9, 2.0), (1e9, 1e9)]
        elif "string" in ty:
            kind, pairs = "text", [("a", "b"), ("b", "a"), ("a", "a"), ("", "a")]
        elif "bool" in ty:
            kind, pairs = "boolean", [(0, 1), (1, 0), (0, 0), (1, 1)]
        elif "int" in ty:
            kind, pairs = "integer", [(1, 2), (2, 1), (2, 2), (-1, 1)]
        else:
            continue
        kinds.add(kind)
        for rule, op in RULES.items():
            for a, b in pairs:
                x, y = (a, b) if kind != "real" or abs(a - b) > 1e-7 else (a, a)     # equal within the tolerance
                truth(ctx, p, f, T(quiet), {"$0": a, "$1": b, "$2": enumval(p, rule, "Rule")}, op(x, y), "%s %s %s %s" % (kind, a, rule, b),
                      "evaluates to %%s for %s and %s" % (a, b))
    for k in ("real", "integer", "boolean", "text"):
        ctx.check(k in kinds, "comparison of %s values" % k, fs[0].loc(), "no comparison for %s values" % k)


def edges(ctx, p):
    f = p.q1(C + "CheckEdge")
    IDLE, EV = enumval(p, "IDLE", "ConditionState"), enumval(p, "EVALUATED", "ConditionState")
    E = {n: enumval(p, n, "ConditionEdge") for n in ("NONE", "RISING", "FALLING", "RISING_OR_FALLING")}
    for st, (en, ev), new, old in itertools.product((IDLE, EV), E.items(), (0, 1), (0, 1)):
        want = {"NONE": bool(new), "RISING": bool(new and not old), "FALLING": bool(old and not new), "RISING_OR_FALLING": new != old}[en]
        if st == IDLE and en != "NONE":
            want = False
        truth(ctx, p, f, T(quiet), {"this.state_": st, "$0": new, "$1": old, "$2": ev}, want, "edge %s, %s, value %d after %d" % (
            en, "evaluated before" if st == EV else "first evaluation", new, old), "yields %s")


def evaluate(ctx, p):
    f = p.q1(C + "Evaluate")
    IDLE, EV = enumval(p, "IDLE", "ConditionState"), enumval(p, "EVALUATED", "ConditionState")
    for st, res, edge, delayed, prev, cb in itertools.product((IDLE, EV), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1)):
        def watch(name, q, r, vals, n):
            s = [al.poly_str(v) for v in vals]
            if name == "CheckCondition":
                return "check" if s == ["$0"] or s == ["sim_time"] else "check with %s" % s, ("c", res)
            if name == "CheckEdge":
                ok = s[0] == str(res) and s[1] == "this.last_result_" and s[2] == "this.edge_"
                return "edge" if ok else "edge of %s" % s, lambda eng, x: ("c", edge)
            if name == "RegisterValue":
                return "register %s" % s[1], ("init", ("g", "CHANGED"))
            if name == "GetValueAtTime":
                ok = al.pstr(al.poly(vals[0])) in (al.pstr(al.expect("sim_time - this.delay_")), al.pstr(al.expect("sim_time - this.delay_")).replace("sim_time", "$0"))
                return "delayed" if ok else "value at %s" % s[0], ("c", delayed)
            if q == "<indirect>":
                return "callback", NULL
            return quiet(name, q, r, vals, n)
        c = {"this.state_": st, "this.cond_value_": prev}
        fa = {}
        if cb:
            fa[C + "conditionCallback"] = True
        else:
            c[C + "conditionCallback"] = 0
        what = "evaluation, raw %d, after edge %d, delayed %d, previously %d" % (res, edge, delayed, prev)
        for r in truth(ctx, p, f, T(watch), c, bool(delayed), what, "yields %s", fa):
            ev = [e for e in r.ev if e != "callback"]
            ctx.check(ev == ["check", "edge", "register %d" % edge, "delayed"], what + ": steps", f.loc(), "steps are %s" % ev)
            ctx.check(r.const("this.last_result_") == res, what + ": memory", f.loc(), "the raw result is not kept for the next edge")
            ctx.check(r.const("this.cond_value_") == delayed, what + ": value", f.loc(), "the value of the condition is not stored")
            ctx.check(r.const("this.state_") == EV, what + ": state", f.loc(), "the condition is not marked as evaluated")
            want = int(cb and delayed and not prev)
            ctx.check(r.ev.count("callback") == want, what + ": callback", f.loc(), "%d condition callbacks instead of %d" % (r.ev.count("callback"), want))
    # rearming
    f = p.q1(C + "Reset")

    def watch(name, q, r, vals, n):
        if name == "Reset" and r and r.endswith("history_"):
            return "history", NULL
        return quiet(name, q, r, vals, n)
    for r in explore(p, f, T(watch), {"this.cond_value_": 1}):
        ctx.check(r.has("history"), "condition reset: delay", f.loc(), "values awaiting the delay survive the reset")
        ctx.check(r.const("this.cond_value_") == 0, "condition reset: value", f.loc(), "the value survives the reset")


def groups(ctx, p):
    f = p.q1(NS + "ConditionGroup::Evaluate")
    for vals_, delays in itertools.product(itertools.product((0, 1), repeat=2), itertools.product((0.0, 1.0), repeat=2)):
        def watch(name, q, r, vals, n):
            if name == "Evaluate" and r and "condition_[" in r:
                i = int(r[r.index("condition_[") + 11:].split("]")[0])
                return "eval%d" % i, ("c", vals_[i])
            return quiet(name, q, r, vals, n)
        c = {"this.condition_.#size": 2}
        for i in (0, 1):
            c["this.condition_[%d]->delay_" % i] = delays[i]
        what = "group of %s, delays %s" % (vals_, delays)
        for r in truth(ctx, p, f, T(watch), c, all(vals_), what, "a condition group evaluates to %s"):
            for i in (0, 1):
                if delays[i] > 0 or all(vals_[:i]):
                    ctx.check(r.ev.count("eval%d" % i) == 1, what + ": condition %d evaluated" % i, f.loc(),
                              "a condition %s evaluated, its delay or edge misses this step" % ("is not" if not r.has("eval%d" % i) else "is more than once"))
    truth(ctx, p, f, T(quiet), {"this.condition_.#size": 0}, False, "empty group", "an empty group evaluates to %s")
    f = p.q1(NS + "Trigger::Evaluate")
    IDLE, EV = enumval(p, "IDLE", "ConditionState"), enumval(p, "EVALUATED", "ConditionState")
    for vals_ in itertools.product((0, 1), repeat=2):
        def watch(name, q, r, vals, n):
            if name == "Evaluate" and r and "conditionGroup_[" in r:
                i = int(r[r.index("conditionGroup_[") + 16:].split("]")[0])
                return "eval%d" % i, ("c", vals_[i])
            return quiet(name, q, r, vals, n)
        c = {"this.conditionGroup_.#size": 2}
        for i in (0, 1):
            c["this.conditionGroup_[%d]->condition_.#size" % i] = 2
            for j in (0, 1):
                c["this.conditionGroup_[%d]->condition_[%d]->state_" % (i, j)] = EV
        what = "trigger of groups %s" % (vals_,)
        for r in truth(ctx, p, f, T(watch), c, any(vals_), what, "a trigger evaluates to %s"):
            for i in (0, 1):
                ctx.check(r.ev.count("eval%d" % i) == 1, what + ": group %d evaluated" % i, f.loc(), "a condition group is not evaluated, its edges and delays miss this step")
                for s in [r.const("this.conditionGroup_[%d]->condition_[%d]->state_" % (i, j)) for j in (0, 1)]:
                    ctx.check(s is None or s == (IDLE if any(vals_) else EV), what + ": rearmed", f.loc(), "conditions are %s" % (
                    "not rearmed when the trigger fires" if any(vals_) else "rearmed although the trigger did not fire"))
    for d in (0, 1):
        truth(ctx, p, f, T(quiet), {"this.conditionGroup_.#size": 0, "this.defaultValue_": d}, bool(d), "trigger without conditions, default %d" % d, "evaluates to %s")
    f = p.q1(NS + "Trigger::Reset")

    def watch(name, q, r, vals, n):
        if name == "Reset" and r and "condition_[" in r:
            return "reset" + r[r.index("conditionGroup_["):].replace("conditionGroup_", "g").replace("condition_", "c").replace(".", ""), NULL
        return quiet(name, q, r, vals, n)
    c = {"this.conditionGroup_.#size": 2, "this.conditionGroup_[0]->condition_.#size": 2, "this.conditionGroup_[1]->condition_.#size": 2}
    for r in explore(p, f, T(watch), c):
        ctx.check(len(set(r.ev)) == 4, "trigger reset", f.loc(), "only %d of 4 conditions are reset" % len(set(r.ev)))


def delay(ctx, p):
    """the value of the past: entries change the value at their time; all entries passed since the last look count"""
    f = p.q1(NS + "ConditionDelay::GetValueAtTime")
    hist = [(1.0, 1), (3.0, 0), (5.0, 1)]
    for k, first, time in itertools.product((0, 1, 2, 3), (0, 1), (0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0)):
        es = [(t, v ^ first) for t, v in hist[:k]]
        for i in range(k + 1):
            if i and time < es[i - 1][0]:
                continue        # time does not go back
            c = {"this.values_.#size": k, "this.current_index_": i, "$0": time}
            for j, (t, v) in enumerate(es):
                c["this.values_[%d].time_" % j] = t
                c["this.values_[%d].value_" % j] = v
            passed = [v for t, v in es[i:] if t <= time]
            want = bool(any(passed) if passed else es[i - 1][1] if i else 0)
            what = "delayed value at %s of %s, %d seen" % (time, es, i)
            for r in truth(ctx, p, f, T(quiet), c, want, what, "is %s"):
                x = r.const("this.current_index_")
                ctx.check(x is None or x == i + len(passed), what + ": position", f.loc(), "%s entries are marked as seen instead of %d" % (x, i + len(passed)))
    f = p.q1(NS + "ConditionDelay::RegisterValue")
    for k, last, val, time in itertools.product((0, 1), (0, 1), (0, 1), (5.0,)):
        def watch(name, q, r, vals, n):
            if name in ("push_back", "emplace_back") and r and r.endswith("values_"):
                return "push", NULL
            return quiet(name, q, r, vals, n)
        c = {"this.values_.#size": k, "this.values_[0].time_": 1.0, "this.values_[0].value_": last, "$0": time, "$1": val}
        want = not k or last != val
        what = "value %d registered %s" % (val, "first" if not k else "after %d" % last)
        for r in truth(ctx, p, f, T(watch), c, want, what, "registered: %s"):
            ctx.check(r.has("push") == want, what + ": stored", f.loc(), "the change of the value is %s" % ("not stored" if want else "stored although there is none"))


def states(ctx, p):
    f = p.q1(NS + "TrigByState::CheckState")
    X = {n: enumval(p, n, "StoryBoardElement::Transition") for n in ("START_TRANSITION", "END_TRANSITION", "STOP_TRANSITION", "SKIP_TRANSITION", "UNDEFINED_ELEMENT_TRANSITION")}
    S = {n: enumval(p, n, "StoryBoardElement::State") for n in ("STANDBY", "RUNNING", "COMPLETE", "INIT")}
    for tn in list(S)[:3] + list(X)[:4]:
        t = enumval(p, tn, "CondElementState")
        for (sn, s), (xn, x) in itertools.product(S.items(), X.items()):
            want = tn == sn or tn == xn

            def more(st):
                v = ("v", 0, f.params[0], f.vars[f.params[0]].name)
                for b in (v, ("d", ("init", v))):
                    st.env[("f", b, "state")] = ("c", s)
                    st.env[("f", b, "transition")] = ("c", x)
            truth(ctx, p, f, T(quiet), {"this.target_element_state_": t}, want, "waiting for %s, element %s by %s" % (tn, sn, xn), "holds: %s", None, more)
    f = p.q1(NS + "TrigByState::CheckCondition")
    UND = X["UNDEFINED_ELEMENT_TRANSITION"]
    for k, res in itertools.product((0, 1, 2), itertools.product((0, 1), repeat=2)):
        def watch(name, q, r, vals, n):
            if name == "CheckState":
                s = al.poly_str(vals[0]) if vals else ""
                i = s[s.index("state_change_[") + 14:].split("]")[0] if "state_change_[" in s else None
                return "state%s" % (i if i is not None else "-latest"), ("c", res[int(i)] if i is not None and i.isdigit() else res[0])
            if name == "clear" and r and r.endswith(".state_change_"):
                return "clear", NULL, [("this.state_change_.#size", NULL)]
            return quiet(name, q, r, vals, n)

        def more(st):
            for i in range(2):
                a, b = ("init", ("f", ("i", loc("this.state_change_"), ("c", i)), "element")), ("init", loc("this.element_"))
                st.facts[("eq", a, b)] = st.facts[("eq", b, a)] = True
        what = "state condition with %d changes, matching %s" % (k, res[:max(k, 1)])
        want = bool(any(res[:k]) if k else res[0])
        for r in truth(ctx, p, f, T(watch), {"this.state_change_.#size": k}, want, what, "holds: %s", {"this.element_": True}, more):
            ctx.check(bool(r.const("this.state_change_.#size") == 0), what + ": consumed", f.loc(), "state changes are seen again in the next step")
            if not k:
                x = r.const("this.latest_state_change_.transition")
                ctx.check(x is None or x == UND, what + ": transition", f.loc(), "a transition is seen for more than one step")


def values(ctx, p):
    for cls, ref in (("TrigByParameter", "parameterRef_"), ("TrigByVariable", "variableRef_")):
        f = p.q1(NS + cls + "::CheckCondition")
        for ty, field, conv in (("PARAM_TYPE_INTEGER", "_int", "INT(this.value_)"), ("PARAM_TYPE_DOUBLE", "_double", "REAL(this.value_)"),
                                ("PARAM_TYPE_STRING", "_string", "this.value_"), ("PARAM_TYPE_BOOL", "_bool", None)):
            got = []

            def watch(name, q, r, vals, n):
                if name == "getParameterEntry":
                    got.append(("entry", [al.poly_str(v) for v in vals]))
                    return "", ("init", ("g", "ENTRY"))
                if name == "EvaluateRule":
                    got.append(("rule", [al.poly_str(v) for v in vals]))
                    return "compared", ("init", ("g", "VERDICT"))
                return quiet(name, q, r, vals, n)

            def more(st):
                e = ("init", ("g", "ENTRY"))
                st.facts[("nz", e)] = True
                st.env[("f", ("d", e), "type")] = ("c", enumval(p, ty, "ParameterType"))
            rs = explore(p, f, T(watch), {}, {}, more)
            ctx.count("cases analysed")
            what = "%s of %s" % (cls, ty)
            ctx.check(("entry", ["this." + ref]) in got, what + ": looked up", f.loc(), "looks up something else than the referenced name")
            for k, a in got:
                if k != "rule":
                    continue
                ctx.check(a[0] == "ENTRY.value." + field, what + ": value", f.loc(), "compares %s" % a[0])
                ctx.check(conv is None or a[1] == conv or a[1] == "?", what + ": limit", f.loc(), "compares with %s" % a[1])
                ctx.check(a[2] == "this.rule_", what + ": rule", f.loc(), "compares by %s" % a[2])
            for r in rs:
                ctx.check(r.has("compared"), what + ": compared", f.loc(), "no comparison is made")
                ctx.check(r.ret == ("init", ("g", "VERDICT")) or r.truth(r.ret) is None, what + ": result", f.loc(), "the comparison's result is not returned")
    f = p.q1(NS + "TrigBySimulationTime::CheckCondition")
    got = []

    def watch(name, q, r, vals, n):
        if name == "EvaluateRule":
            got.append([al.poly_str(v) for v in vals])
        return quiet(name, q, r, vals, n)
    explore(p, f, Trace(watch, never=("EvaluateRule",)))
    ctx.check(bool(got) and all(g[0] in ("sim_time", "$0") and g[1:] == ["this.value_", "this.rule_"] for g in got), "simulation time condition", f.loc(), "compares %s" % got)
