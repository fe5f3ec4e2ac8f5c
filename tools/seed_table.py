#!/usr/bin/env python3
"""Writes the table of the planted bugs into DESIGN.md."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- planted bugs -->\n', '<!-- end of planted bugs -->\n'
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
rows = ['| id | property | needs |', '|---|---|---|']
items = []
for i in os.listdir(os.path.join(HERE, 'seeded')):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    items.append((m['property'], i, m['needs']))
for p, i, n in sorted(items):
    rows.append('| %s | %s | %s |' % (i, p, n))
a, b = text.index(A) + len(A), text.index(B)
open(path, 'w').write(text[:a] + '\n'.join(rows) + '\n' + text[b:])
