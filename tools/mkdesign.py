#!/usr/bin/env python3
"""DESIGN.md = design_head.md + design_tail.md + table of planted changes (seeded/*/meta.json, tools/caught.txt)."""
import os, json
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
out = open(D + '/design_head.md').read() + open(D + '/design_tail.md').read()
caught = {}
for l in open(D + '/caught.txt'):
    if l.strip():
        n, _, c = l.strip().partition(' ')
        caught[n] = c
out += '\n## Planted changes (seeded/) and the checks that catch them\n\n| change | property | needs | caught by (quick, seed 1) |\n|---|---|---|---|\n'
S = V + '/seeded'
for n in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(f'{S}/{n}/meta.json'))
    out += f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, 'not run')} |\n"
out += open(D + '/design_mutants.md').read()
open(V + '/DESIGN.md', 'w').write(out)
