#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re, ast
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason='no check built yet'))
        continue
    t = ast.parse(open(f).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    c = dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py %s --tier thorough' % i,
             evidence_file='evidence/%s.json' % i, technique=g['TECHNIQUE'], level=g['LEVEL'], level_note=g['NOTE'])
    checks.append(c)
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks are committed in /repo: allocation and interpreter-lock hooks are linked in with --wrap when the checks build it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'missing', [x['property'] for x in na])
