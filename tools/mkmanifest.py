#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Monitor under construction.")})
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation lives in the harness and in build overlays of third-party modules. Replay a recorded violation with ./check.py --replay FILE."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
