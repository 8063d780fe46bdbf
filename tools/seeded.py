#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')):
    with open(name) as file:
        meta = json.load(file)
    rows.append((meta['property'], os.path.basename(os.path.dirname(name)), meta['needs']))
for row in sorted(rows):
    print('| ' + ' | '.join(row) + ' |')
