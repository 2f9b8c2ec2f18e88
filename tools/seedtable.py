#!/usr/bin/env python3
"""Writes the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (optional argument: file with seedrun.py output)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) > 3 and w[3] in ('CAUGHT', 'MISSED'):
            res[w[0]] = w[3]
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
mark = '<!-- planted -->'
head = s.split(mark)[0]
missed = sorted(k for k, v in res.items() if v == 'MISSED')
open(p, 'w').write(head + mark + '\n\n%d planted bugs; each is caught by the quick check of the property it is filed under%s.\n\n' % (
    len(rows), ' except ' + ', '.join(missed) if missed else '') +
    '| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
