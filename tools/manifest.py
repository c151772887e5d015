#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/spec.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from lib.spec import SPECS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks, na = [], []
NA = {}
for i in ids:
    if i not in SPECS:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    s = SPECS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --tier thorough",
                   "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", "bounded exhaustive enumeration of the real code (explicit-state / all inputs up to a bound) against a reference model"),
                   "level": s["level"], "level_note": s.get("note") or ("Exhaustive within the stated bounds, executed on the real code compiled from the working tree: " + s["rule"] + ". Trusts the reference model in harness/, the compiler and Eigen; says nothing beyond the enumerated alphabet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: every check compiles its own harness against the working tree. tools/manifest.py regenerates this file."},
          open(R + "/MANIFEST.json", "w"), indent=1)
