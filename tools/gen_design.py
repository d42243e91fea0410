#!/usr/bin/env python3
"""fill the property and planted-change tables of DESIGN.md (development tool): DESIGN.in.md -> DESIGN.md"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
out = []
for p in P:
    i = p['id']
    if i in CLAIMS:
        c = CLAIMS[i]
        out.append(f"**{i} {p['title']}.** Units: {', '.join(c['units'])}. Deciding obligations: {', '.join('`%s`' % t for t in c['theorems'])}. {c['note']} {c.get('design', '')}\n")
    else:
        out.append(f"**{i} {p['title']}.** Not claimed: {NOT_APPLICABLE.get(i, 'contracts not finished.')}\n")
seeds = ['| id | property | caught by | what it needs |', '|---|---|---|---|']
res = json.load(open(f'{V}/seeded/results.json')) if os.path.exists(f'{V}/seeded/results.json') else {}
for d in sorted(os.listdir(f'{V}/seeded')):
    m = f'{V}/seeded/{d}/meta.json'
    if os.path.exists(m):
        j = json.load(open(m))
        seeds.append(f"| {d} | {j['property']} | {res.get(d, 'not run')} | {j['needs']} |")
s = open(f'{V}/DESIGN.in.md').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds))
open(f'{V}/DESIGN.md', 'w').write(s)
