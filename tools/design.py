#!/usr/bin/env python3
"""Regenerates the tail of /verif/DESIGN.md from design_tail.md and seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(ROOT + '/DESIGN.md').read().split('## How each property is decided')[0]
rows = ['| bug | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
tail = open(ROOT + '/tools/design_tail.md').read().replace('@SEEDED@', '\n'.join(rows))
open(ROOT + '/DESIGN.md', 'w').write(head + tail)
