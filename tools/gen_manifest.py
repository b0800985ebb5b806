#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is run.py <id>: it builds the monitors of that property from harness/ against /repo/include in "
             "several configurations (compiler, standard, exceptions, assertions, sanitizer) and runs them. No hooks in "
             "/repo are needed: the library takes its allocators, element types, memory resources and callables from the "
             "caller, which is where the monitors sit. Known findings: known_findings.txt.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": NOTES[i]["technique"],
            "level": checks.CHECKS[i]["level"],
            "level_note": NOTES[i]["note"],
        })
    else:
        out["not_applicable"].append({"property": i, "reason": "Its monitors are not built yet."})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
