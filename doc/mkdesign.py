#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md and the planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | what it breaks | caught by |', '|---|---|---|']
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
s = open(HERE + '/doc/DESIGN.in.md').read().replace('@@BUGS@@', '\n'.join(rows))
s = s.replace('@@EXTRA_ROWS@@\n', '').replace('@@EXTRA_NOTES@@\n', '')
open(HERE + '/DESIGN.md', 'w').write(s)
