#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from props import PROPS, NOTES
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s.get("technique", "contract-based deductive verification of the real code (LLVM IR verification conditions, z3)"),
                       "level": s.get("level", "proof"),
                       "level_note": s["level_note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, "no contract for this part has been discharged yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Every check compiles the contracts in contracts/ together with /repo's current sources to LLVM IR, discharges every obligation with engine/, and compiles the same contracts natively to replay failures."},
          open(R + "/MANIFEST.json", "w"), indent=1)
