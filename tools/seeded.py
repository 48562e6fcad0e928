#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md.
import json, glob, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = v + '/DESIGN.md'
s = open(p).read()
i = s.index('Each is in `seeded/<id>/`')
i = s.index('\n\n', i) + 2
rows = ['| check | planted bug | needs |', '|-------|-------------|-------|']
ms = []
for f in glob.glob(v + '/seeded/*/meta.json'):
    m = json.load(open(f))
    ms.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/')))
for r in sorted(ms):
    rows.append('| %s | %s | %s |' % r)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
