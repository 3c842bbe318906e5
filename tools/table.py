"""Rewrites the table of planted bugs in DESIGN.md (by hand, after adding bugs)."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')):
    d = json.load(open(f))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d['needs']))
out = ['<!-- table -->', '| check | planted bug | needs |', '|---|---|---|']
for p in sorted(rows):
    for n, needs in sorted(rows[p]):
        out.append('| %s | %s | %s |' % (p, n, needs.replace('|', '\\|').replace('\n', ' ')))
out.append('<!-- end -->')
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(?s)@@TABLE@@|<!-- table -->.*<!-- end -->', lambda m: '\n'.join(out), s)
open(p, 'w').write(s)
