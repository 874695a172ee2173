#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, LEVELS
TECH = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "the checks need no hooks: they compile /repo's headers and Python sources as they are and "
               "interpose system calls, clocks and schedules from outside", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "runtime monitoring: reference-model oracle over recorded executions, ASan/UBSan/TSan builds"),
            "level": LEVELS.get(i, "exploration"),
            "level_note": c.get("note", "held on the executions the evidence file counts; nothing is claimed beyond them")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check claims this property yet (its harness is not finished)"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
