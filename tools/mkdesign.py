#!/usr/bin/env python3
"""Writes DESIGN.md: design.head.md, a section for each property out of
properties.jsonl and its check, design.tail.md. Run by hand."""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design.head.md').read(), '## The properties\n']
F = json.load(open(V + '/known_findings.json'))['findings']
S = {}
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m)); S.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    g = {}
    f = V + '/checks/%s.py' % i.lower()
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                g[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append('### %s %s\n' % (i, p['title']))
    out.append('* Statement: %s' % p['statement'])
    out.append('* Why tests cannot: %s' % p.get('why_tests_cant', ''))
    out.append('* Deciding method (%s): %s.' % (g['LEVEL'], g['TECHNIQUE'].rstrip('.')))
    out.append('* %s' % g['NOTE'])
    out.append('* Counting: %s.' % g['RULE'].rstrip('.'))
    for t in ('quick', 'thorough'):
        b = g['BOUNDS'][t]
        out.append('* Bounds, %s: %s' % (t, b if isinstance(b, str) else json.dumps(b)))
    for a in ([g['ASSUMPTIONS']] if isinstance(g.get('ASSUMPTIONS'), str) else g.get('ASSUMPTIONS', ())):
        out.append('* Assumption: %s' % a)
    n = [x for x in F if x['property'] == i]
    out.append('* Defects found: %d repaired, %d recorded.' % (sum(x['status'] == 'fixed' for x in n), sum(x['status'] != 'fixed' for x in n)))
    for k, d in sorted(S.get(i, ())):
        out.append('* Planted: `%s` (%s).' % (k, d['what_it_breaks'].rstrip('.')))
    out.append('')
out.append(open(V + '/tools/design.tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
