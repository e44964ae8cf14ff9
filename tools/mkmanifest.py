#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/rules/catalog.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
from rules import catalog
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    c = catalog.CHECKS.get(i)
    if c is None:
        na.append({"property": i, "reason": catalog.NOT_APPLICABLE.get(i, "no check yet")}); continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": c["technique"], "level": c["level"], "level_note": c["explanation"]})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
