#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (and 'catches' noted below)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'b12-distinct-of-groups': 'missed at first: grouped queries rarely selected plain grouping columns with DISTINCT; now they do',
    'b13-subquery-in-a-later-value': 'missed at first: later rows of VALUES had no subqueries, and the engine executed write statements with subqueries; both changed',
}
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | {NOTE.get(d, 'caught')} |")
t = '\n'.join(['<!-- planted -->', '| bug | caught by | needs | note |', '|---|---|---|---|'] + rows + ['<!-- /planted -->'])
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = s.replace('@PLANTED@', '<!-- planted --><!-- /planted -->')
s = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
