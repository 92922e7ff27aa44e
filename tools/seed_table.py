#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import json, glob, os
rows = []
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
print('| bug | caught by | needs | breaks |\n|---|---|---|---|')
print('\n'.join(rows))
