#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks_table import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                   "thorough_cmd": f"python3 run.py {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": c["technique"], "level": c.get("level", "exploration"),
                   "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring: seeded workloads drive the real code built with the Go race detector; monitors compare every observation with independent models. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
