#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
from props import PROPS, NOT_APPLICABLE, NOTES
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
na_ids = {n["property"] for n in NOT_APPLICABLE}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./run.sh %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % p["id"],
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["level_note"],
        }
        for p in PROPS
        if p["id"] not in na_ids
    ],
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
