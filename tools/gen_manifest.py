#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks as CK
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
cs, na = [], []
for p in props:
    i = p['id']
    if i not in CK.CHECKS:
        na.append({'property': i, 'reason': 'no check is registered yet'}); continue
    c = CK.CHECKS[i]
    cs.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
               'evidence_file': 'evidence/%s.json' % i, 'technique': c.get('technique', CK.TECHNIQUE), 'level': c['level'],
               'level_note': c.get('note', CK.NOTE) + ' Bounds: ' + '; '.join('%s: %s' % kv for kv in c['bounds'].items())})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py checks.py && g++ --version', 'checks': cs, 'not_applicable': na,
     'notes': 'No hooks are needed: every harness drives the public API of the headers in /repo directly.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(cs), 'checks', len(na), 'n/a')
