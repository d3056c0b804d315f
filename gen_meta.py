#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py (run by hand after editing meta.py)"""
import json, os
from meta import PROPERTIES, NOT_APPLICABLE, HOOKS
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
checks = []
for p in PROPERTIES:
    if p['id'] not in PROPS: continue
    fns = PROPS[p['id']]['own']
    checks.append({
        'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'Verus contracts on functions extracted from /repo on every run, plus counterexample replay on the real crate',
        'level': 'proof', 'level_note': p['note'],
        'theorems': p.get('theorems', ['%s: %s' % (u, 'all functions' if v == '*' else ', '.join(v)) for u, v in fns.items()]),
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPERTIES if p['id'] not in PROPS],
     'notes': 'see DESIGN.md; known-findings.txt lists repaired and recorded defects'}
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
