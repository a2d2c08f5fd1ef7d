#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plans  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if x.strip()]
checks, missing = [], []
for p in props:
    if p not in plans.PLANS:
        missing.append({"property": p, "reason": "Not claimed yet: the contracts of these functions are not written."})
        continue
    plan = plans.PLANS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt -B check.py {p} --tier quick",
        "thorough_cmd": f"python3-vt -B check.py {p} --tier thorough",
        "technique": plan.get("technique", plans.TECHNIQUE),
        "level": "proof",
        "level_note": plan["note"],
    })
m = {"version": 1, "setup_cmd": "python3-vt -B tools/setup.py", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: /repo carries only fix: commits. The verifier reads and runs /repo's current sources on every run."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
