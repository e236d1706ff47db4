#!/usr/bin/env python3
"""Fills in the table of planted bugs in DESIGN.md from seeded/*/meta.json (a documentation helper, no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
