#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md with the tables of repairs and planted bugs filled in."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(V + '/tools/design_body.md').read()
fx = [l.strip() for l in open(V + '/known_findings.jsonl') if l.startswith('fixed:')]
rows = ['| property | commit | what failed |', '|---|---|---|']
for l in fx:
    _, rest = l.split('property=', 1)
    p, c, w = rest.split(' ', 2)
    rows.append(f'| {p} | {c} | {w} |')
missed = json.load(open(V + '/tools/seed/missed.json'))
seeds = ['| change | caught by | first missed? |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = d.split('/')[-2]
    m = json.load(open(d))
    seeds.append(f"| {i}: {m['what_it_breaks']} | {m['property']} | {missed.get(i, 'no')} |")
open(V + '/DESIGN.md', 'w').write(body.replace('@@FIXES@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds)))
