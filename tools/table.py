#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted changes from a log of lines 'ID CHECK rc=.. n CHECK: R runs, ... T s'."""
import json, re, sys, os
d = os.path.join(os.path.dirname(__file__), '..', 'seeded')
rows = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (P\d\d) rc=(\d) \d+ P\d\d: (\d+) runs.* ([\d.]+) s$', l.strip())
    if m: rows.setdefault(m[1], []).append((m[2], m[3], m[4], m[5]))
print('| planted change | what it breaks | needs | caught by (runs until the violation, seed 1) |\n|---|---|---|---|')
for i in sorted(os.listdir(d)):
    j = json.load(open(os.path.join(d, i, 'meta.json')))
    c = ', '.join(f'{p} ({n})' if rc == '1' else f'missed by {p}' for p, rc, n, _ in rows.get(i, [])) or '?'
    print('|', i, '|', j['what_it_breaks'].replace('|', '/'), '|', j['needs'].replace('|', '/'), '|', c, '|')
