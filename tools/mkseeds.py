#!/usr/bin/env python3
"""mkseeds.py: the table of planted bugs in DESIGN.md"""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
added = json.load(open('tools/seeds.json'))
rows = ['| bug | caught by | needs | added for it |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = d.split('/')[1]
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), added.get(i, '')))
s = open('DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
s = s.replace('@@SEEDS@@\n', a + b)
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
