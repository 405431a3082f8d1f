#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", "deterministic simulation with fault injection: seeded search, reference-model oracle"),
                       "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
