#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has a harness is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SEQ = {"P14", "P15", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31"}
TECH = "model checking of the real code: exhaustive schedule exploration under a controlled scheduler, with a race pass"
TECHS = "model checking of the real code: exhaustive enumeration of inputs, operation histories and environment answers against a reference model"
NOTE = ("Exhaustive within the bounds DESIGN.md states (small programs: all interleavings or all up to a preemption bound; large programs: all schedules up to a delay bound; which bound each scenario completed is in the "
        "evidence). Trusts the instrumenter, the controlled runtime's model of Go's synchronisation, and the oracle in the harness.")
NOTES = ("Exhaustive over the input space DESIGN.md states (small strings/values over alphabets chosen to cover every case of the code, all operation sequences to a depth). "
         "Trusts the reference model in the harness.")
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: checks instrument a copy of its working tree at check time. bin/check --replay FILE re-runs a counterexample."}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower(), "main.go")):
        seq = i in SEQ
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": TECHS if seq else TECH, "level": "model_checking", "level_note": NOTES if seq else NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its harness is not built"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
