#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits of /repo and the list of
findings that are recorded, not repaired. Run by hand; no check runs it."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
# property of each fix commit, by a word of its subject
PROP = [
    ('4-byte wide strings', 'C01'), ('comparison of the second operand', 'C03'), ('not equal to themselves', 'C03'), ('64-bit items of keys', 'C01'),
    ('visiting order', 'C02'), ('unhashable items, instead of crashing while hashing', 'C01'), ('empty vectors within keys', 'C01'),
    ('fit no single type', 'C01'), ('every vector of a cycle', 'C02'), ('bitvectors of different stored forms', 'C05'), ('any-set test', 'C08'),
    ('greater than negative', 'C05'), ('integers and floats exactly', 'C05'), ('hash 64-bit integers', 'C04'), ('refuse to hash strings with zeros', 'C03'),
    ('hash collides with a key of another type', 'C03'), ('compare primitive vectors', 'C05'), ('refuse to compare strings with zeros', 'C05'),
]
exec(open(os.path.join(V, 'findings.inc')).read())
out = list(KNOWN)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s'], stdout=subprocess.PIPE, check=True).stdout.decode()
for l in log.splitlines():
    h, s = l.split('|', 1)
    if not s.startswith('fix: '):
        continue
    p = [b for a, b in PROP + FIXPROP if a in s]
    if not p:
        raise SystemExit('no property for: ' + s)
    out.append(dict(id='F-' + h, property=p[0], status='fixed', what='fixed: property=%s %s %s' % (p[0], h, s[5:])))
json.dump(dict(findings=out), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'findings', len(KNOWN), 'known')
