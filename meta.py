#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and checks.py."""
import json, os
from checks import CHECKS
from props import PROPS, NA, LEVEL_NOTES
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] in CHECKS or p["id"] in NA:
            f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --selftest",
     "hooks": {"guard": "VERIF_SIM (unused: no hook was needed, every seam is at link time)", "enable": "nothing to enable; the checks build an untouched copy of /repo's working tree and wrap its external calls when linking", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection: " + CHECKS[i]["technique"], "level": "exploration", "level_note": LEVEL_NOTES.get(i, LEVEL_NOTES[""])})
    elif i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
