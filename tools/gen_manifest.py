#!/usr/bin/env python3
"""Writes MANIFEST.json from variants.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from variants import VARIANTS
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in VARIANTS: continue
    tech, note = NOTES[p]
    checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"VERIF_TIER=thorough ./check {p} thorough",
                       technique=tech, level="exploration", level_note=note))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no monitor has been built for this property yet")) for p in props if p not in VARIANTS]
hooks = json.load(open(os.path.join(V, "tools", "hooks.json")))
m = dict(version=1, setup_cmd="./setup.sh", hooks=hooks, checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
