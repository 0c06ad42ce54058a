#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
from checks import CHECKS, TECHNIQUE, NOTES
props = [json.loads(l) for l in open("properties.jsonl")]
PURE = "The property relates one pure call's result to its arguments alone: no thread, timer, I/O, callback, fault or history can influence it, so there is no schedule or fault sequence for a deterministic simulation to search. Covered only incidentally, where other checks use such values."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE.get(i, "deterministic simulation with fault injection (seeded search)"), "level": "exploration", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": PURE if i.startswith("N") else "No check yet."})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
