#!/usr/bin/env python3
"""Prints the table of section 6 of DESIGN.md: seeded/*/meta.json plus the
family that reports each change (tools/caught.txt: "ID family[*]")."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fam = dict(l.split(None, 1) for l in open(f'{V}/tools/caught.txt').read().splitlines() if l.strip())
for d in sorted(glob.glob(f'{V}/seeded/*/')):
    i = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json'))
    print(f"* {i} [{fam.get(i, '?').strip()}]: {m['needs']}")
