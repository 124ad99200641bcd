#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (properties.jsonl is the list of ids)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
EX = "explicit-state enumeration of the generated circuit's executions against an independent reference automaton"
T = json.load(open(os.path.join(here, "claims.json")))
checks, na = [], []
for p in props:
    if p in T:
        c = T[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh check {p} quick", "thorough_cmd": f"./run.sh check {p} thorough", "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: everything is observed through the public interfaces. Known findings: known_findings.txt."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
