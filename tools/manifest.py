#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "decided against an executable reference model of the call that explains, at every quiescent moment of each run, everything the call sent and notified"
SCN = "decided by oracles computed from the simulated wire and clock"
HOST = "crashes, endless loops, deadlocks and deafness are detected by the scheduler and by probes during and after hostile traffic"
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
checks = []
for pid, note in notes["claimed"].items():
    checks.append({
        "property": pid,
        "quick_cmd": "./check.sh %s quick" % pid,
        "thorough_cmd": "./check.sh %s thorough" % pid,
        "technique": "deterministic simulation with fault injection: " + {"model": MODEL, "hostile": HOST}.get(note["kind"], SCN),
        "level": "exploration",
        "level_note": note["note"],
    })
m = {"version": 1, "setup_cmd": "./sim/build.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in notes["not_applicable"].items()]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
