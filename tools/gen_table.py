#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json and what catch.py recorded."""
import json, os
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
d = json.load(open(V + '/tools/caught.json'))
s = open(V + '/DESIGN.md').read()
s = s[:s.index('## Planted bugs')]
ids = sorted(os.listdir(V + '/seeded'))
n = sum(d.get(i, {}).get('caught', False) for i in ids)
s += """## Planted bugs
`seeded/<id>/` holds %d changes, each written from the text of a property and the code, that compile, pass the tests,
and fail a demonstration of their own. All quick checks of the property named were run on each (`tools/catch.py`); %d
are caught. The last column is the first case that the check reports.

| plant | check | needs | breaks | first case reported |
|---|---|---|---|---|
""" % (len(ids), n)
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    c = d.get(i, {})
    e = lambda x: x.replace('|', '\\|').replace('\n', ' ')
    s += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], e(m['needs']), e(m['what_it_breaks']), '`%s`' % e(c['case']) if c.get('caught') else 'not caught' if c else 'not run')
open(V + '/DESIGN.md', 'w').write(s)
