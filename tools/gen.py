#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
