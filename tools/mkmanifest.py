#!/usr/bin/env python3
"""MANIFEST.json from props.json and not_applicable.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(H + "/props.json"))
na = json.load(open(H + "/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in props:
        continue
    p = props[i]
    c = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
    th = (p.get("lean") or {}).get("theorems")
    if th:
        c["theorems"] = th
    checks.append(c)
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": na.get(i, "not reached yet")} for i in ids if i not in props],
     "notes": "see DESIGN.md"}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(m["not_applicable"]), "not applicable")
