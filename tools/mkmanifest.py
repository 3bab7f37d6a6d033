#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and prove.py's tables."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import prove
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    tech, level, note = prove.manifest_entry(i)
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                   "technique": tech, "level": level, "level_note": note, **({"theorems": prove.THEOREMS[i]} if i in prove.THEOREMS else {})})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "Every check extracts the functions named in DESIGN.md from /repo's current source, verifies them with Verus against the contracts in /verif/proofs, and runs the executable form of the property (harness/) as witness search and as labelled bounded stand-in for code outside the verifier's reach. No hooks in /repo: only its public API is used."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
