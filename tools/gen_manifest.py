#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: checks compile /repo's sources unmodified with their own flags", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check built yet.")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f: f.write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
