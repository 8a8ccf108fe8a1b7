#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | file(s) | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = os.path.dirname(f); m = json.load(open(f))
    files = sorted({l.split()[1][2:] for l in open(d + '/patch.diff') if l.startswith('+++ b/')})
    cb = m.get('caught_by') or m['property']
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(d), m['property'], ', '.join(files), ' '.join(m['needs'].split()).replace('|', '/'), cb))
p = root + '/DESIGN.md'
s = open(p).read().split('\n## Planted bugs')[0]
s += '''
## Planted bugs
Each was written from a property's text, confirmed to build, to pass the stable tests and to be exposed by its own demonstration.
"caught by" is the property whose quick check reports it. Table generated by `tools/gen_table.py`.

''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
