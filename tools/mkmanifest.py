#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "gen")]
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
         notes="TLA+ with TLC. Each check builds the drivers from /repo's working tree, generates scripts (from TLC behaviours of the specification, exhaustive small tables and seeded generators), runs them against the real code and has TLC validate the recorded traces; see DESIGN.md. No hooks in /repo.")
for p in props:
    if p in checks.TABLE:
        m["checks"].append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                                technique=checks.TECHNIQUE.get(p, checks.DEFAULT_TECHNIQUE), level=checks.TABLE[p][0], level_note=checks.NOTE.get(p, checks.DEFAULT_NOTE)))
    else:
        m["not_applicable"].append(dict(property=p, reason="check under construction"))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
