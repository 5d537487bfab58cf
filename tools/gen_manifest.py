#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a test in harness/checks."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(HERE, "tools", "checks.json"), encoding="utf-8"))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "checks", pid.lower() + "_test.go")) and pid in NOTE:
        n = NOTE[pid]
        checks.append({
            "property": pid, "quick_cmd": "python3 check.py %s quick" % pid,
            "thorough_cmd": "python3 check.py %s thorough" % pid,
            "technique": n["technique"], "level": n.get("level", "exploration"), "level_note": n["note"],
        })
    else:
        na.append({"property": pid, "reason": NOTE.get(pid, {}).get("na", "No check has been built for it yet.")})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
