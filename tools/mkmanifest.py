#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "harness", p.lower() + ".py")) and p in NOTES:
        checks.append({"property": p, "quick_cmd": "./run.py " + p,
                       "thorough_cmd": "env VERIF_TIER=thorough ./run.py " + p,
                       "technique": "TLA+ specification model-checked with TLC; recorded behaviour of the real code judged against it by TLC",
                       "level": "model_checking", "level_note": NOTES[p]})
    else:
        na.append({"property": p, "reason": "no check committed yet (in progress)"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
