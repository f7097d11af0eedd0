#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), level_note="", claimed=True, reason=None, level="proof", **more):
    P.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, mech=mech, over=list(over),
                  note=level_note, claimed=claimed, reason=reason, level=level, more=more))


from tools.table import fill  # noqa: E402
fill(prop)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], **p["more"]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
T = "contract-based deductive verification: verification conditions generated from the real functions' source, discharged by z3"
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in P:
    if p["claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
                            "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough", "technique": T,
                            "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
