#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (all of them caught by the check of their property)."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(R + '/DESIGN.md').read()
i = d.index('## Planted bugs')
t = '''## Planted bugs

`seeded/<id>/` (never read by any check).  Every one was applied, built, passed the
stable tests, failed its demonstration, and was reported by the quick check of its
property with the default seed (generated by `tools/seedtable.py`).

| bug | check that catches it | breaks | needs |
|---|---|---|---|
'''
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    j = json.load(open(m))
    t += f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['what_it_breaks']} | {j['needs']} |\n"
open(R + '/DESIGN.md', 'w').write(d[:i] + t)
