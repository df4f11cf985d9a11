"""Source of properties.jsonl and MANIFEST.json:  python3 tool/spec.py  rewrites both."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "EnvironmentSimulator/"
LIB = ENV + "Libraries/esminiLib/esminiLib.cpp"
RMLIB = ENV + "Libraries/esminiRMLib/esminiRMLib.cpp"
SE = ENV + "Modules/ScenarioEngine/SourceFiles/"
RM = ENV + "Modules/RoadManager/RoadManager.cpp"
OC = ENV + "Modules/ScenarioEngine/OSCTypeDefs/"
CM = ENV + "Modules/CommonMini/"
PB = ENV + "Modules/PlayerBase/playerbase.cpp"
CT = ENV + "Modules/Controllers/"

P = []      # claimed
NA = []     # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                  observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


import importlib.util  # noqa: E402
s = importlib.util.spec_from_file_location("claims", os.path.join(VERIF, "tool", "claims.py"))
m = importlib.util.module_from_spec(s)
m.__dict__.update({k: v for k, v in globals().items() if not k.startswith("_")})
s.loader.exec_module(m)


def line(x):
    a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
    if x.get("observe"):
        a["observe_at"] = x["observe"]
    a["hook_needed"] = None
    return {"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"], "anchors": a}


def main():
    ids = [x["id"] for x in P + NA]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert os.path.exists(os.path.join(VERIF, "checks", x["id"] + ".py")), x["id"]
    for x in P + NA:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        for f in x["files"]:
            assert os.path.exists("/repo/" + f), f
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P + NA:
            f.write(json.dumps(line(x)) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 lib/extract.py",
        "checks": [{
            "property": x["id"],
            "quick_cmd": "python3 lib/check.py " + x["id"],
            "thorough_cmd": "python3 lib/check.py %s --tier thorough" % x["id"],
            "technique": x["technique"],
            "level": "other",
            "level_note": x["note"],
        } for x in P],
        "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in NA],
        "hooks": {"guard": "none", "enable": "no hooks are needed: every check reads the source", "source_commits": []},
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "claimed,", len(NA), "not applicable")


main()
