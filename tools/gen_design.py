#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (property table, defects, planted bugs) from checks.py, properties.jsonl,
known_findings.txt and seeded/."""
import json, os, re, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks as CK
P = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
COST = json.load(open(os.path.join(R, 'tools/cost.json'))) if os.path.exists(os.path.join(R, 'tools/cost.json')) else {}
out = []
for p in P:
    c = CK.CHECKS.get(p['id'])
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Specified:* %s\n' % p['statement'])
    if not c: continue
    out.append('*Enumerated and compared:* %s\n' % re.sub(r'\s+', ' ', c['rule']))
    out.append('*Bounds:* %s.\n' % '; '.join('%s: %s' % kv for kv in c['bounds'].items()))
    out.append('*Beyond the tests:* %s.%s\n' % (p['why_tests_cant'].rstrip('.'), (' *Quick run:* %s.' % COST[p['id']]) if p['id'] in COST else ''))
tab = '\n'.join(out)
kf = [l.strip() for l in open(os.path.join(R, 'known_findings.txt')) if l.strip() and not l.startswith('#')]
d = '\n'.join('* ' + l for l in kf)
sb = ['| bug | property | what it needs | caught by |', '|---|---|---|---|']
caught = json.load(open(os.path.join(R, 'tools/caught.json'))) if os.path.exists(os.path.join(R, 'tools/caught.json')) else {}
for m in sorted(glob.glob(os.path.join(R, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(m)); x = json.load(open(m))
    sb.append('| %s | %s | %s | %s |' % (i, x['property'], x['needs'].replace('|', '/'), caught.get(i, '?')))
f = os.path.join(R, 'DESIGN.md'); s = open(f).read()
for tag, t in (('properties', tab), ('defects', d), ('planted', '\n'.join(sb))):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + t + '\n' + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
