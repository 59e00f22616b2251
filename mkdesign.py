#!/usr/bin/env python3-vt
"""Fills the tables of DESIGN.md (between markers) from the contract modules and seeded/."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/vc', V + '/contracts']
s = open(V + '/DESIGN.md').read()
rows = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if not os.path.exists(V + '/contracts/%s.py' % i.lower()):
        rows.append('| %s | - | - | not applicable |' % i)
        continue
    m = importlib.import_module(i.lower())
    fn = [re.sub(r'\(.*', '', x.name or x.fn) for x in m.SPECS if not x.trusted]
    tr = [re.sub(r'\(.*', '', x.name or x.fn) for x in m.SPECS if x.trusted]
    rows.append('| %s | %s%s | %s | %s |' % (
        i, ', '.join(fn), ' (assumed: %s)' % ', '.join(tr) if tr else '',
        getattr(m, 'DECIDES', 'postconditions of these functions'),
        (m.BOUNDED + ('; covers ' + ', '.join(m.BOUNDED_FUNCTIONS) if getattr(m, 'BOUNDED_FUNCTIONS', None) else '')).replace('|', '/')))
seeds = []
res = {}
try:
    res = json.load(open(V + '/seeded/results.json'))
except OSError:
    pass
for d in sorted(os.listdir(V + '/seeded')):
    try:
        j = json.load(open(V + '/seeded/%s/meta.json' % d))
    except OSError:
        continue
    seeds.append('| %s | %s | %s | %s | %s |' % (d, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), res.get(d, '?')))
def fill(s, name, head, rows):
    b, e = '<!-- %s -->' % name, '<!-- /%s -->' % name
    body = b + '\n' + '\n'.join(head + rows) + '\n' + e
    if b in s:
        return s[:s.index(b)] + body + s[s.index(e) + len(e):]
    return s.replace('@@%s@@' % name, body)
H = ['| id | functions under contract | decided by proof | bounded stand-in (harness on the real code) |', '|---|---|---|---|']
s = s.replace('| id | functions under contract | decided by proof | bounded stand-in |\n|----|--------------------------|------------------|------------------|\n', '')
s = fill(s, 'TABLE', H, rows)
s = fill(s, 'SEEDS', ['| change | property | breaks | needs | result |', '|---|---|---|---|---|'], seeds)
open(V + '/DESIGN.md', 'w').write(s)
