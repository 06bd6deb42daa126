#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (run after editing that table)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        mech = [{"name": a, "where": b} for a, b in p["mech"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["stmt"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": mech, "observe_at": p["obs"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"): na.append({"property": p["id"], "reason": p["na"]}); continue
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
        "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup", "hooks": {"guard": "PANDA_VERIF", "enable": "no hooks were needed: nothing in /repo is guarded; the checks compile /repo/src with their own makefile", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds from /repo/src into /verif/.build and is a pure function of VERIF_SEED; known-findings.txt lists findings and fixed defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
