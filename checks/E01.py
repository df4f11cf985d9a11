"""Storyboard elements follow the state machine.

For every life-cycle operation of a storyboard element and every combination of current state, element type, triggers,
executions done and allowed, the resulting state, transition, execution count and the calls made to children, parent and
triggers are derived from the code and compared with the state machine: init - standby - running - complete. The same is
done for the propagation to the parent, the notification of state changes and the event priorities.
"""
import itertools
import algebra as al
from extract import Broken
from trace import Trace, explore, loc
from flow import NULL

ASSUMPTIONS = [
    "loops over children are analysed for no child, for one child and, for the combined state of children, for two",
    "calls to children and to the parent are not followed; a variant in which they complete the element itself is analysed",
]
S = "scenarioengine::StoryBoardElement::"
INIT, STANDBY, RUNNING, COMPLETE = range(4)
NAMES = ["INIT", "STANDBY", "RUNNING", "COMPLETE"]
KID = ("g", "CHILDREN")
LIFE = {"Start", "Stop", "End", "Step", "Reset", "EvalTriggers"}


def enum(p, suffix, name):
    for q, e in p.enums.items():
        if q.endswith(suffix):
            for k, v in e:
                if k.rsplit("::", 1)[-1] == name:
                    return v
    for q, e in p.enums.items():
        for k, v in e:
            if k.rsplit("::", 1)[-1] == name and suffix.split("::")[0] in q:
                return v
    raise Broken("enumerator %s not found" % name)


def who(r):
    if r is None:
        return None
    if r == "this":
        return "this"
    if r.endswith("parent_"):
        return "parent"
    if r.endswith("start_trigger_"):
        return "start_trigger"
    if r.endswith("stop_trigger_"):
        return "stop_trigger"
    if r.startswith("CHILDREN"):
        return "child"
    return r


def watcher(trig=None, on=None, inline=()):
    """trig: value of trigger evaluations; on: {event: [(loc, value)]} effects of calls on the element itself"""
    on = on or {}

    def watch(name, q, r, vals, n):
        w = who(r)
        if name == "GetChildren":
            return "", ("&", KID)
        if name == "SetState" and w == "this":
            return "SetState", NULL, lambda eng, st: [("this.state_", vals[0]), ("this.#announced", eng.read(st, loc("this.transition_")))]
        if name == "Evaluate" and w in ("start_trigger", "stop_trigger"):
            return w + ".Evaluate", ("c", 1 if (trig or {}).get(w) else 0)
        if name == "PropagateStateFromChildren" or (name in LIFE and w in ("this", "parent", "child", "start_trigger", "stop_trigger")):
            if w == "this" and name in inline and not n.g("virt"):
                return None
            ev = "%s.%s" % (w, name)
            return ev, NULL, on.get(ev, ())
        if name in ("AllChildrenComplete", "AnyChildRunning") and w == "this" and name not in inline:
            return "", ("g?", name)
        if "Logger" in q or q.startswith(("LOG", "esmini_logger")):
            return "", NULL
        return None
    return watch


def env(state, start=None, stop=None, typ=None, num=None, mx=None, kids=None, parent=None, kidstate=None):
    c = {"this.state_": state}
    f = {}
    for name, v in (("start_trigger_", start), ("stop_trigger_", stop), ("parent_", parent)):
        if v is True:
            f["this." + name] = True
        elif v is False:
            c["this." + name] = 0
    if typ is not None:
        c["this.element_type_"] = typ
    if num is not None:
        c["this.num_executions_"] = num
    if mx is not None:
        c["this.max_num_executions_"] = mx
    if kids is not None:
        c["CHILDREN.#size"] = kids
    return c, f


def run(ctx):
    p = ctx.program()
    T = {n: enum(p, "StoryBoardElement::ElementType", n) for n in ("STORY_BOARD", "STORY", "ACT", "MANEUVER_GROUP", "MANEUVER", "EVENT", "ACTION")}
    X = {n: enum(p, "StoryBoardElement::Transition", n) for n in ("START_TRANSITION", "END_TRANSITION", "STOP_TRANSITION", "SKIP_TRANSITION",
                                                               "INIT_TO_STBY_TRANSITION", "UNDEFINED_ELEMENT_TRANSITION")}
    for i, nme in enumerate(NAMES):
        ctx.check(enum(p, "StoryBoardElement::State", nme) == i, "state code %s" % nme, "StoryboardElement.hpp", "the public code of state %s changed" % nme)

    def table(op, cases, expect, watch=None, consts=None):
        f = p.q1(S + op)
        for case in cases:
            c, fa = env(**{k: v for k, v in case.items() if k not in ("trig", "on", "kidstate")})
            c.update(consts or {})
            if "kidstate" in case:
                c["CHILDREN"] = c.get("CHILDREN")
                del c["CHILDREN"]
            t = Trace(watch(case) if watch else watcher(case.get("trig"), case.get("on")))
            runs = explore(p, f, t, c, fa)
            ctx.count("cases analysed")
            what = "%s in %s%s" % (op, NAMES[case["state"]], "".join(
                ", %s=%s" % (k, next((n for n, v in T.items() if v == x), x) if k == "typ" else x) for k, x in case.items() if k not in ("state", "on")))
            if not runs:
                ctx.check(False, what, f.loc(), "the operation does not return")
            for r in runs:
                for name, ok, text in expect(case, r):
                    ctx.check(ok, "%s: %s" % (what, name), f.loc(), text)

    def st(r, want, trans=None, num=None):
        got = r.const("this.state_")
        yield "state", got == want, "leads to %s instead of %s" % (NAMES[got] if got in range(4) else got, NAMES[want])
        if trans is not None:
            g = r.const("this.transition_")
            yield "transition", g == X[trans], "transition is %s, expected %s" % (next((k for k, v in X.items() if v == g), g), trans)
            g = r.const("this.#announced")
            yield "announced transition", g == X[trans], "the state change is announced with transition %s instead of %s" % (
                next((k for k, v in X.items() if v == g), "the previous one"), trans)
        if num is not None:
            yield "executions", r.const("this.num_executions_") == num, "execution count is %s, expected %s" % (r.const("this.num_executions_"), num)

    def same(r, case):
        for x in st(r, case["state"]):
            yield x
        yield "no change", not r.has("SetState"), "a state change is signalled where nothing may change"

    # -- start
    def e_start(case, r):
        s = case["state"]
        kid = "child.Start"
        if s == INIT and case["start"]:
            yield from st(r, STANDBY, "INIT_TO_STBY_TRANSITION", case["num"])
            yield "children wait", not r.has(kid), "children are started although the element only awaits its trigger"
        elif s in (INIT, STANDBY):
            yield from st(r, RUNNING, "START_TRANSITION", case["num"] + 1)
            if case["typ"] == T["EVENT"]:
                yield "event starts its actions itself", not r.has(kid), "actions of an event are started regardless of priority and conflicts"
            else:
                yield "children started", r.ev.count(kid) == case["kids"], "children are not started with their parent"
                yield "order", r.before("SetState", kid), "children start before their parent is running"
        elif s == COMPLETE and case["num"] == 0:
            yield from same(r, case)
            yield "children", not r.has(kid), "children of a completed element are started"
        yield "one change", r.ev.count("SetState") <= 1, "more than one state change"

    table("Start", [dict(state=s, start=a, typ=t, num=n, kids=k) for s, a, t, n, k in itertools.product(
        range(4), (True, False), (T["EVENT"], T["ACT"], T["MANEUVER_GROUP"], T["STORY_BOARD"], T["ACTION"]), (0, 2), (0, 2)) if not (s in (RUNNING, COMPLETE) and n)], e_start)

    # -- stop
    def e_stop(case, r):
        s = case["state"]
        yield "children stopped", r.ev.count("child.Stop") == case["kids"], "children are not stopped together with the element"
        if s in (STANDBY, RUNNING) and not case.get("on"):
            yield from st(r, COMPLETE, "STOP_TRANSITION")
            yield "parent told", r.has("parent.PropagateStateFromChildren") == case["parent"], "the parent does not learn that the element is complete"
            yield "order", r.before("SetState", "parent.PropagateStateFromChildren"), "the parent is told before the element is complete"
            yield "children first", r.before("child.Stop", "SetState") if case["kids"] else True, "children are stopped after the element itself"
        elif not case.get("on"):
            yield from same(r, case)
        else:
            yield "no second transition", not r.has("SetState"), "an element already completed through its children is completed again"

    done = {"child.Stop": [("this.state_", ("c", COMPLETE))]}
    table("Stop", [dict(state=s, kids=k, parent=q) for s, k, q in itertools.product(range(4), (0, 2), (True, False))] +
          [dict(state=s, kids=2, parent=True, on=done) for s in (STANDBY, RUNNING)], e_stop)

    # -- end
    again = (T["MANEUVER_GROUP"], T["EVENT"])

    def e_end(case, r):
        s = case["state"]
        if case.get("on"):
            yield "no second transition", not r.has("SetState"), "an element already completed through its children is completed again"
            return
        if s in (STANDBY, RUNNING):
            rep = case["typ"] in again and not (case["mx"] != -1 and case["num"] >= case["mx"])
            yield from st(r, STANDBY if rep else COMPLETE, "END_TRANSITION", case["num"])
            yield "parent told", r.has("parent.PropagateStateFromChildren") == case["parent"], "the parent does not learn that the element ended"
            yield "order", r.before("SetState", "parent.PropagateStateFromChildren"), "the parent is told before the element ended"
            if rep:
                yield "start trigger rearmed", r.has("start_trigger.Reset") == case["start"], "the start trigger is not reset for the next execution"
                yield "stop trigger rearmed", r.has("stop_trigger.Reset") == case["stop"], "the stop trigger is not reset for the next execution"
                yield "children rearmed", r.ev.count("child.Reset") == case["kids"], "children are not reset for the next execution"
            else:
                yield "children kept", not r.has("child.Reset"), "children of a completed element are reset"
        else:
            yield from same(r, case)

    table("End", [dict(state=s, typ=t, num=n, mx=m, kids=k, parent=q, start=a, stop=b) for s, t, (n, m), k, q, (a, b) in itertools.product(
        range(4), (T["EVENT"], T["MANEUVER_GROUP"], T["MANEUVER"], T["ACT"], T["STORY"], T["ACTION"]), ((1, -1), (1, 0), (1, 1), (1, 2), (2, 1), (1000, -1)), (0, 2), (True, False),
        ((True, True), (False, False)))] +
        [dict(state=RUNNING, typ=T["ACT"], num=1, mx=1, kids=1, parent=True, start=True, stop=True, on={"child.End": [("this.state_", ("c", COMPLETE))]})],
        lambda case, r: e_end(case, r) if not case.get("on") or r.has("child.End") else ())

    # running children end with their parent
    f = p.q1(S + "End")
    for ks in range(4):
        c, fa = env(RUNNING, typ=T["ACT"], num=1, mx=1, kids=1, parent=True, start=False, stop=False)

        def watch(name, q, r, vals, n, base=watcher()):
            if name == "GetCurrentState" and who(r) == "child":
                return "", ("c", ks)
            return base(name, q, r, vals, n)
        for r in explore(p, f, Trace(watch), c, fa):
            ctx.check(r.has("child.End") == (ks == RUNNING), "End with a child in %s" % NAMES[ks], f.loc(),
                      "a running child survives its parent" if ks == RUNNING else "a child that is not running is ended")
            ctx.check(r.before("child.End", "SetState") if ks == RUNNING else True, "End: children first", f.loc(), "the parent completes before its children")

    # -- triggers
    def e_trig(case, r):
        s, tr = case["state"], case["trig"]
        stop = s == RUNNING and case["stop"] and tr.get("stop_trigger")
        yield "stop", r.has("this.Stop") == bool(stop), "the stop trigger %s" % ("is ignored" if stop else "stops an element it must not stop")
        start = s == STANDBY and (not case["start"] or tr.get("start_trigger"))
        yield "start", r.has("this.Start") == bool(start), "the start trigger %s" % ("is ignored" if start else "starts an element it must not start")
        kids = (s == RUNNING and not stop) or start
        yield "children evaluated", r.ev.count("child.EvalTriggers") == (case["kids"] if kids else 0), \
            "triggers of children are %s" % ("not evaluated" if kids else "evaluated although the element is not running")

    def on_trig(case):
        return watcher(case["trig"], {"this.Stop": [("this.state_", ("c", COMPLETE))], "this.Start": [("this.state_", ("c", RUNNING))]})

    table("EvalTriggers", [dict(state=s, start=a, stop=b, trig={"start_trigger": x, "stop_trigger": y}, typ=t, kids=k) for s, a, b, x, y, t, k in itertools.product(
        range(4), (True, False), (True, False), (True, False), (True, False), (T["STORY_BOARD"], T["ACT"], T["EVENT"]), (0, 2))], e_trig, on_trig)

    # -- step
    def e_step(case, r):
        want = case["state"] == RUNNING and case["kids"] > 0
        yield "children stepped", r.ev.count("child.Step") == (case["kids"] if want else 0), "children are %s" % ("not stepped" if want else "stepped while the element is not running")
        yield from same(r, case)

    table("Step", [dict(state=s, kids=k) for s, k in itertools.product(range(4), (0, 2))], e_step)

    # -- standby
    def e_stby(case, r):
        if case["state"] == STANDBY:
            yield from st(r, STANDBY, "SKIP_TRANSITION")
        elif case["state"] == RUNNING:
            yield from st(r, STANDBY, "END_TRANSITION")
        else:
            yield from same(r, case)
    if p.q(S + "Standby"):
        table("Standby", [dict(state=s) for s in range(4)], e_stby)

    # -- reset
    f = p.q1(S + "Reset")
    for s, k, a, b, to in itertools.product((STANDBY, COMPLETE), (0, 2), (True, False), (True, False), (INIT, STANDBY)):
        c, fa = env(s, start=a, stop=b, kids=k)
        c["$0"] = to
        for r in explore(p, f, Trace(watcher()), c, fa):
            ctx.count("cases analysed")
            ctx.check(r.const("this.state_") == to, "Reset: state", f.loc(), "reset leads to %s instead of %s" % (r.const("this.state_"), NAMES[to]))
            ctx.check(r.const("this.transition_") == X["UNDEFINED_ELEMENT_TRANSITION"], "Reset: transition", f.loc(), "a transition survives the reset")
            ctx.check(r.ev.count("child.Reset") == k, "Reset: children", f.loc(), "children are not reset")
            ctx.check(r.has("start_trigger.Reset") == a, "Reset: start trigger", f.loc(), "the start trigger is not reset")
            ctx.check(r.has("stop_trigger.Reset") == b, "Reset: stop trigger", f.loc(), "the stop trigger is not reset")

    propagate(ctx, p, T)
    children(ctx, p)
    notify(ctx, p)
    events(ctx, p, T)
    board(ctx, p)


def propagate(ctx, p, T):
    f = p.q1(S + "PropagateStateFromChildren")
    for s, allc, t in itertools.product(range(4), (0, 1), sorted(T.values())):
        c, fa = env(s, typ=t)

        def watch(name, q, r, vals, n, base=watcher()):
            if name == "AllChildrenComplete":
                return "", ("c", allc)
            return base(name, q, r, vals, n)
        want = t != T["STORY_BOARD"] and s != COMPLETE and allc
        for r in explore(p, f, Trace(watch), c, fa):
            ctx.count("cases analysed")
            ctx.check(r.has("this.End") == bool(want), "completion in %s, type %d, %s children complete" % (NAMES[s], t, "all" if allc else "not all"), f.loc(),
                      "the element %s" % ("does not end when all its children are complete" if want else "ends although it must not"))


def children(ctx, p):
    for op, answer in (("AllChildrenComplete", lambda ks: all(k == COMPLETE for k in ks)), ("AnyChildRunning", lambda ks: any(k == RUNNING for k in ks))):
        f = p.q1(S + op)
        for ks in [()] + [(k,) for k in range(4)] + list(itertools.product(range(4), repeat=2)):
            def watch(name, q, r, vals, n, base=watcher()):
                if name == "GetCurrentState" and r and r.startswith("CHILDREN["):
                    i = r[9:r.index("]")]
                    if i.isdigit() and int(i) < len(ks):
                        return "", ("c", ks[int(i)])
                return base(name, q, r, vals, n)
            rs = explore(p, f, Trace(watch), {"CHILDREN.#size": len(ks)})
            want = answer(ks)
            for r in rs:
                ctx.count("cases analysed")
                v = r.truth(r.ret) if r.ret is not None else None
                ctx.check(v is None or v == want, "%s with %s" % (op, [NAMES[k] for k in ks] or "no child"), f.loc(),
                          "answers %s for children in %s" % (v, [NAMES[k] for k in ks]))


def notify(ctx, p):
    f = p.q1(S + "SetState")
    PR = f.params[0]
    for s, to, cb, refs, rec in itertools.product(range(4), range(4), (True, False), (0, 2), (0, 1)):
        def watch(name, q, r, vals, n):
            if name == "GetOptionSetByEnum":
                return "", ("c", rec)
            if q == "<indirect>":
                a = [al.poly_str(v) for v in vals]
                ok = len(a) >= 4 and a[2] == str(to) and "element_type_" in a[1] and "name_" in a[0] and "full_path_" in a[3]
                return "callback" if ok else "callback with %s" % ", ".join(a)
            if name == "RegisterStateChange":
                a = [al.poly_str(v) for v in vals]
                ok = a[0] == "this" and a[1] == str(to) and a[2] == "this.transition_"
                return "register" if ok else "register with %s" % ", ".join(a)
            if name in ("emplace_back", "push_back") and r and r.endswith("state_changes_"):
                return "record", NULL
            return None
        t = Trace(watch, never=("state2str", "transition2str"))
        c = {"this.state_": s, "this.trigger_ref_.#size": refs, "$0": to}
        g = S + "stateChangeCallback"
        fa = {}
        if cb:
            fa[g] = True
        else:
            c[g] = 0
        for r in explore(p, f, t, c, fa):
            ctx.count("cases analysed")
            key = "state change %s to %s" % (NAMES[s], NAMES[to])
            ctx.check(r.const("this.state_") == to, key + ": stored", f.loc(), "the state is not stored")
            ch = s != to
            for ev, want, text in (("callback", ch and cb, "state change callback"), ("register", ch and refs, "monitoring triggers"), ("record", ch and rec, "recording of state changes")):
                ctx.check(r.ev.count(ev) == int(want), key + ": " + text, f.loc(), "%s: %d notifications, %d expected; %s" % (text, r.ev.count(ev), int(want), list(r.ev)))
            odd = [e for e in r.ev if e not in ("callback", "register", "record")]
            ctx.check(not odd, key + ": content", f.loc(), "notified %s" % odd)


def events(ctx, p, T):
    q = "scenarioengine::Event::Start"
    f = p.q1(q)
    PRI = {n: enum(p, "Event::Priority", n) for n in ("OVERWRITE", "SKIP", "PARALLEL")}
    for pri, s, other, acts in itertools.product(PRI, (STANDBY, RUNNING), (0, 1), (0,)):
        def watch(name, qq, r, vals, n):
            w = who(r)
            if name == "AnyChildRunning":
                return "", ("c", int(other or s == RUNNING))
            if name == "GetCurrentState" and w not in ("this",):
                return "", ("c", RUNNING if other else STANDBY)
            if name == "Start" and w == "this":
                return "this.Start", NULL, [("this.state_", ("c", RUNNING))]
            if name == "End" and w == "this":
                return "this.End", NULL
            if name == "End":
                return "other.End", NULL
            return None
        t = Trace(watch)
        t.limit = 3
        c = {"this.state_": s, "this.priority_": PRI[pri], "this.action_.#size": acts, "this.parent_->event_.#size": 2}
        for r in explore(p, f, t, c):
            ctx.count("cases analysed")
            key = "event priority %s, event %s, other event %s" % (pri, NAMES[s], "running" if other else "idle")
            start = s != RUNNING and not (pri == "SKIP" and other)
            ctx.check(r.has("this.Start") == start, key + ": start", f.loc(), "the event %s" % ("does not start" if start else "starts although it must not"))
            if start:
                ctx.check(r.has("this.End"), key + ": no actions", f.loc(), "an event without actions does not end")
                if pri == "OVERWRITE":
                    pass
                else:
                    ctx.check(not r.has("other.End"), key + ": others", f.loc(), "other events are ended")
                ctx.check(r.before("other.End", "this.Start") if r.has("other.End") else True, key + ": order", f.loc(), "other events end after the start")
        if pri == "OVERWRITE" and s != RUNNING:
            rs = explore(p, f, t, c)
            # the other event of the maneuver is a different one on some path
            ctx.check(max([r.ev.count("other.End") for r in rs] or [0]) == (2 if other else 0), "event overwrite, other %s" % ("running" if other else "idle"), f.loc(),
                      "overwrite %s" % ("does not end all running events of the maneuver" if other else "ends events that are not running"))


def board(ctx, p):
    f = p.q1("scenarioengine::StoryBoard::Start")
    kinds = ("global_action_", "user_defined_action_", "private_action_")

    def watch(name, q, r, vals, n):
        if name in ("Start", "Step") and r is not None:
            k = next((k for k in kinds if k in r), None)
            return "%s.%s" % (k or r, name), NULL
        if name == "EvalTriggers":
            return "%s.EvalTriggers" % r, NULL
        return None
    c = {"this.init_.%s.#size" % k: 1 for k in kinds}
    for r in explore(p, f, Trace(watch), c):
        for k in kinds:
            ctx.check(r.has(k + ".Start"), "init %s started" % k, f.loc(), "init actions (%s) are not started with the storyboard" % k)
            ctx.check(r.before(k + ".Start", "this.Start"), "init %s before stories" % k, f.loc(), "stories start before the init actions")
        ctx.check(r.ev.count("this.Start") == 1, "storyboard started", f.loc(), "the storyboard itself is not started")
    f = p.q1("scenarioengine::StoryBoard::Step")
    for s, ghost in itertools.product(range(4), (0,)):
        def watch2(name, q, r, vals, n):
            if name == "GetCurrentState":
                return "", ("c", s)
            if name == "GetGhostMode":
                return "", ("c", 0)
            return watch(name, q, r, vals, n)
        for r in explore(p, f, Trace(watch2), c):
            for k in kinds:
                ctx.check(r.has(k + ".Step") == (s == RUNNING), "init %s in %s stepped" % (k, NAMES[s]), f.loc(),
                          "init actions (%s) are %s" % (k, "not stepped" if s == RUNNING else "stepped although not running"))
            ctx.check(r.has("this.Step"), "storyboard stepped", f.loc(), "stories are not stepped")
            ctx.check(r.before("this.EvalTriggers", "this.Step"), "triggers first", f.loc(), "elements are stepped before triggers are evaluated")
