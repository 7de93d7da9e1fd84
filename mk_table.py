#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (d[7:], m['property'], m['needs'].replace('|', '/')))
s = open('DESIGN.md').read()
s = re.sub(r'(\| name \| property \| manifests when \|\n\|---\|---\|---\|\n)(?:\|.*\n)*', lambda k: k.group(1) + '\n'.join(rows) + '\n', s)
open('DESIGN.md', 'w').write(s)
