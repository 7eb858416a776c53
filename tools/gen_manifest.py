#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import checks
NA = {}
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s --tier quick" % i, "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "Fix commits in /repo are listed in known_findings.txt; no hooks were needed."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
