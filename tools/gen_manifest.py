#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/jobs.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from jobs import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": c["technique"], "level": c["level"], "level_note": c["note"] or c["technique"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "the check is still being built"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
