"""Writes MANIFEST.json from harness/table.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import table
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
NOTE = ("Every recorded call of the generated sessions is decided by TLC against the TLA+ specification (all clauses of the "
        "property, exact rational arithmetic, tolerances stated in the specification); sessions are a seeded sample of the inputs.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in table.PROPS:
        c = table.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": c.get("technique", "TLA+ specification, TLC trace validation of recorded API sessions"),
                       "level": c.get("level", "model_checking"), "level_note": c.get("note", "") + NOTE})
    else:
        na.append({"property": i, "reason": table.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Specification in TLA+ (spec/), checked with TLC; no hooks in /repo are needed."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
