#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json, os
d = os.path.join(os.path.dirname(__file__), '..', 'seeded')
rows = []
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, 'meta.json')))
    rows.append((m['property'], s, m['needs'], m['what_it_breaks']))
for p, s, n, w in sorted(rows):
    print(f'| {p} | {s} | {n} | {w} |')
