#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rows = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d['needs']))
t = ['| caught by | planted bug: what it needs to show |', '|---|---|']
for p in sorted(rows): t.append('| %s | %s |' % (p, '; '.join('`%s`: %s' % (i, n.replace('|', '/')) for i, n in rows[p])))
p = V + '/DESIGN.md'; s = open(p).read(); a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(t) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
