#!/usr/bin/env python3
"""Regenerate MANIFEST.json from sa/registry.py (claims) and properties.jsonl (everything else is not_applicable, with the reason given there)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
for i in list(CHECKS) + list(NOT_APPLICABLE):
    assert i in ids, i
for i in ids:
    assert (i in CHECKS) != (i in NOT_APPLICABLE), i
m = {"version": 1, "setup_cmd": "bash extractor/build.sh && python3 run.py --warm",
     "checks": [{"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                 "technique": CHECKS[i]["technique"], "level": CHECKS[i]["level"], "level_note": CHECKS[i]["note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i in NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
