#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and run.py's table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run
TECH = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.PROPS:
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=t[0], level="exploration", level_note=t[1]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="One engine (src/pbt.*) drives all checks; see DESIGN.md. No hooks in /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
