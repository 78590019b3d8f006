#!/usr/bin/env python3
"""writes MANIFEST.json from tools/properties.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from properties import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": "contract-based deductive verification with Verus of functions extracted from /repo on every run",
                       "level": "proof", "level_note": p["note"] + " Trusted: " + "; ".join(p["trusted"]) + ".", "theorems": p.get("theorems", [])})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check extracts the functions it needs from /repo's current source (tools/vx), runs Verus on them, and runs a bounded search on the real code (replay/) that supplies the failing input when an obligation fails."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
