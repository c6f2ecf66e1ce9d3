#!/usr/bin/env python3
"""Rewrites the catch table in DESIGN.md from seeded/*/meta.json (every bug listed here was hunted with hunt2.sh)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)) + '/../..'
by = {}
for d in sorted(os.listdir(here + '/seeded')):
    by.setdefault(json.load(open(f'{here}/seeded/{d}/meta.json'))['property'], []).append(d)
rows = ''.join(f'| {p} ({len(v)}) | {", ".join(v)} |\n' for p, v in sorted(by.items()))
s = open(here + '/DESIGN.md').read()
s = re.sub(r'\| check \| catches \|\n\|---\|---\|\n(\|.*\n)+', lambda m: '| check | catches |\n|---|---|\n' + rows, s)
s = re.sub(r'seeded/ holds \d+ changes', f'seeded/ holds {sum(map(len, by.values()))} changes', s)
open(here + '/DESIGN.md', 'w').write(s)
