#!/usr/bin/env python3
"""writes MANIFEST.json from lib/registry.py and properties.jsonl"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import registry as R
os.chdir(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in R.CHECKS:
        t, note = R.NOTE[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": R.NA.get(i, "check under construction")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
