#!/usr/bin/env python3
# Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(here + '/DESIGN.md').read()
head = s[:s.index('## Planted bugs')]
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m.get('caught', 'yes')} | {m['needs']} |")
open(here + '/DESIGN.md', 'w').write(head + '''## Planted bugs

Each was written from the text of the property. "Caught" is by the check of the property named, at
VERIF_SEED=1 in the quick tier. Bugs that a check missed at first led to a stronger check; the note says so.

| bug | property | caught | needs |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
