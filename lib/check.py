"""Common driver of all checks:  python3 lib/check.py <property> [--tier quick|thorough]

exit 0  every obligation of the property was discharged on /repo's current tree
exit 1  at least one construct of the current tree violates the property (VIOLATION line, replay file)
exit 2  the analysis could not give an answer (source does not parse, anchor of the rule vanished)
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

from extract import Broken  # noqa: E402
import extract  # noqa: E402
import ir  # noqa: E402

sys.setrecursionlimit(10000)


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.ob = 0
        self.ok = 0
        self.viol = []          # (key, where, text)
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.rule = ""
        self._prog = {}

    def program(self, *groups):
        groups = groups or tuple(extract.ALL)
        if groups not in self._prog:
            self._prog[groups] = ir.Program(*groups)
        return self._prog[groups]

    def check(self, ok, key, where, text):
        """one obligation: key identifies it independently of line numbers"""
        self.ob += 1
        if ok:
            self.ok += 1
            if len(self.samples) < 12 and (self.ob % 7 == 1 or len(self.samples) < 4):
                self.samples.append("%s: %s" % (where, key))
        else:
            if not any(v[0] == key for v in self.viol):
                self.viol.append((key, where, text))
        return ok

    def violation(self, key, where, text):
        self.check(False, key, where, text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, got, minimum):
        """the rule must still apply to at least as many instances as were confirmed by hand"""
        self.counts[name] = got
        if got < minimum:
            raise Broken("%s: only %d instances found, at least %d expected - the rule no longer matches the code" % (name, got, minimum))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


def known(prop):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                res[key.strip()] = text
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module(prop)
        mod.run(ctx)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    if ctx.ob == 0:
        print("ANALYSIS-BROKEN property=%s no obligation was generated" % prop)
        return 2
    kn = known(prop)
    new = [v for v in ctx.viol if v[0] not in kn]
    old = [v for v in ctx.viol if v[0] in kn]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or "").strip(),
            "rule": ctx.rule or (mod.__doc__ or "").strip().split("\n")[0],
            "obligations": ctx.ob,
            "discharged": ctx.ok,
            "known_findings": len(old),
            "counts": ctx.counts,
            "samples": ctx.samples,
        },
        "assumptions": ctx.assumptions + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, w, t in old:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (prop, k, w, kn[k]))
    print("%s: %d obligations, %d discharged, %d known findings, %d violations, %.1f s; %s" % (
        prop, ctx.ob, ctx.ok, len(old), len(new), time.time() - t0, ctx.counts))
    if new:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".txt")
        with open(path, "w") as f:
            for k, w, t in new:
                f.write("property: %s\nconstruct: %s\nwhere: %s\n%s\n\n" % (prop, k, w, t))
            f.write("reproduce: cd %s && python3 lib/check.py %s\n" % (VERIF, prop))
        for k, w, t in new:
            print("  violated: %s at %s: %s" % (k, w, t))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
