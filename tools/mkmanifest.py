#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, LEVEL, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in PLAN:
        checks.append({
            "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": PLAN[p].get("technique", LEVEL["technique"]),
            "level": "exploration", "level_note": PLAN[p].get("note", LEVEL["note"])})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet; runtime monitoring applies and is planned")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "check.py compiles core/ of /repo's working tree (cached by content under /verif/.cache) with the harnesses in harness/, "
              "runs seeded cases in parallel and reports; see DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
