#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs/checks.json (maintenance only)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + '/specs/checks.json'))
na = json.load(open(V + '/specs/not_applicable.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    c = conf.get(p)
    if not c: continue
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s --thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'contract-based deductive verification of the extracted functions with Verus (units: %s), failing inputs searched with the executable contracts' % ', '.join(c['units']),
        'level': 'proof',
        'level_note': c['level_note'],
        'theorems': c.get('theorems', []),
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': na.get(p, 'The contracts of this property are not finished.')} for p in props if p not in conf],
     'notes': 'No hooks are needed in /repo: functions are extracted from its working tree on every run and the conformance harness uses its public items only.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
