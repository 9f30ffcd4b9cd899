#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| planted change | property | needs | caught by |')
print('|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    print('| `%s` | %s | %s | %s |' % (d, m['property'], m['needs'], m.get('caught_by', m['property'])))
