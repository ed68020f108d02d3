#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md + a table of the planted bugs with what caught them (tools/catches.txt,
lines 'id [prop]: C01 C02' as tools/catch.sh prints them)."""
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
catches = {}
for l in open(f'{top}/tools/catches.txt'):
    m = re.match(r'(\S+) \[(C\d\d)\]:(.*)', l)
    if m: catches[m.group(1)] = m.group(3).split()
rows = []
for i in sorted(os.listdir(f'{top}/seeded')):
    m = json.load(open(f'{top}/seeded/{i}/meta.json'))
    c = catches.get(i)
    by = 'not run' if c is None else ', '.join(c) or 'MISSED'
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {by} |".replace('MISSED', '**missed**'))
body = open(f'{top}/tools/design_body.md').read().rstrip() + '\n\n'
body += '| planted bug | property | needs | caught by |\n| --- | --- | --- | --- |\n' + '\n'.join(rows) + '\n'
open(f'{top}/DESIGN.md', 'w').write(body)
print(len(rows), 'planted bugs')
