#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "contract-based deductive verification of the Go source (gover: contracts, loop invariants, lemmas; z3 and cvc5)"
NOTES = json.load(open(os.path.join(V, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES[i]
    if "na" in n:
        na.append({"property": i, "reason": n["na"]})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": TECH, "level": n.get("level", "proof"), "level_note": n["note"]})
m = {"version": 1,
     "setup_cmd": ". /opt/vp/env.sh && cd /verif/gover && go build -buildvcs=false -o /dev/null .",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts, keyed by function and loop variables, and are checked against /repo's current source on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
