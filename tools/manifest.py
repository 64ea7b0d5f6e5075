#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
        na.append({"property": p, "reason": "the check is not built yet"})
        continue
    m = importlib.import_module("checks." + p.lower())
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                   "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
d = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "The programs are observed at their boundary (files, console, status), so there are no hooks in /repo; "
              "the checks build variants of the working tree with sanitizers in a scratch directory."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
