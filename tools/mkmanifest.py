#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    f = ROOT + "/vf/checks/%s.py" % i.lower()
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check has been built for it yet"})
        continue
    m = importlib.import_module("vf.checks." + i.lower())
    checks.append({"property": i, "quick_cmd": "python3 -m vf %s" % i.lower(),
                   "thorough_cmd": "python3 -m vf %s thorough" % i.lower(),
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": m.TECHNIQUE, "level": "exploration", "level_note": m.NOTE})
d = {"version": 1, "setup_cmd": "python3 -m vf.build release", "checks": checks}
if na:
    d["not_applicable"] = na
json.dump(d, open(ROOT + "/MANIFEST.json", "w"), indent=1)
