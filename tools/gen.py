#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props_meta as M
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p['id'] for p in M.P]
assert len(set(ids)) == len(ids)
na = dict(M.NOT_APPLICABLE)
P = sorted(M.P, key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        f.write(json.dumps(d) + '\n')
checks = []
for p in P:
    if p['id'] in na:
        continue
    n = p['id'].lower()
    if not os.path.exists(os.path.join(ROOT, 'props', n + '.py')):
        na[p['id']] = 'the check is not built yet'
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level='model_checking', level_note=p['note'].strip()))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes='See DESIGN.md. No hooks in /repo are needed; the engine instruments the sources while it imports them.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import importlib
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid:', len(checks), 'checks', len(na), 'n/a')
except ImportError:
    print('jsonschema is missing')

import re
from oracles import O
out = [open(os.path.join(ROOT, 'docs', 'head.md')).read()]
sys.path.insert(0, ROOT)
for p in P:
    out.append('### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
    if p['id'] in na:
        out.append('Not applicable: %s.\n\n' % na[p['id']])
        continue
    import importlib
    m = importlib.import_module('props.' + p['id'].lower())
    out.append('*Decided by:* %s. %s\n\n' % (p['tech'], O[p['id']]))
    out.append('*Bounds:* %s.\n' % m.BOUNDS)
    for t, a in (('Outside', 'OUTSIDE'), ('Assumptions', 'ASSUMPTIONS'), ('Stand-ins', 'STUBS')):
        v = getattr(m, a, None)
        if v:
            out.append('*%s:* %s.\n' % (t, v if isinstance(v, str) else '; '.join(v)))
    out.append('*Beyond the tests:* %s.\n\n' % p['why'])
out.append(open(os.path.join(ROOT, 'docs', 'tail.md')).read())
sd = os.path.join(ROOT, 'seeded')
rows = []
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m.get('caught_by', '')))
if rows:
    out.append('## Planted bugs\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
