"""Writes properties.jsonl and MANIFEST.json from one table (kept in step by construction)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                technique=technique, note=note, na=na, state=state, observe=observe)


def W(name, where):
    return {"name": name, "where": where}


ALL_EST = ["lingam/base.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py",
           "lingam/resit.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py",
           "lingam/multi_group_rcd.py", "lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/var_lingam.py",
           "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/lim.py", "lingam/lina.py"]

PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


exec(open(os.path.join(V, "tools", "properties_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]:
            anchors["state"] = p["state"]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": anchors}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s --thorough" % p["id"], "technique": TECH + p["technique"],
                   "level": "exploration", "level_note": p["note"]} for p in PROPS if not p["na"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]]}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(man["checks"]), "checks")
