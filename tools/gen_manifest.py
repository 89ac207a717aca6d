#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": c.technique, "level": c.level, "level_note": c.note})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet (under construction)"})
m["notes"] = "No hooks in /repo. Every check copies /repo's working tree to scratch, builds it there with its own Makefile or setup.py, and explores the resulting code."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
