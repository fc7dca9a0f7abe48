#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  NOTE[id] = (level, technique, note)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
from importlib.machinery import SourceFileLoader
N = SourceFileLoader("levels", os.path.join(here, "levels.py")).load_module().N
checks = []
for i in ids:
    lv, tech, note = N.get(i, N["default"])
    checks.append(dict(property=i, quick_cmd="python3-vt vf/check.py %s" % i, thorough_cmd="python3-vt vf/check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level=lv, level_note=note))
man = dict(version=1, setup_cmd="python3-vt -c 'import z3, pycparser'", checks=checks, not_applicable=[],
           notes="Every check regenerates its verification conditions (or runs its harness) from /repo's current working tree. No hooks are needed in /repo.")
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
