#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json.
(For the writer of DESIGN.md only: no check reads seeded.)"""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
t = '| check | planted bugs it catches (quick, VERIF_SEED=1) |\n|---|---|\n'
for p in sorted(rows):
    t += '| %s | %s |\n' % (p, '; '.join('`%s`: %s' % (i.split('-', 1)[1], m['what_it_breaks'].replace('|', '\\|')) for i, m in rows[p]))
p = R + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
