#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/table.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['st'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'], 'technique': p['tech'], 'level': 'other',
           'level_note': p['note'], 'evidence_file': 'evidence/%s.json' % p['id']} for p in PROPS if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Static analysis of the LLVM form of /repo\'s current headers; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
S = '/root/.vp/'
if os.path.exists(S + 'MANIFEST.schema.json'):
    jsonschema.validate(m, json.load(open(S + 'MANIFEST.schema.json')))
    sc = json.load(open(S + 'PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), sc)
print(len(checks), 'checks,', len(NA), 'not applicable')
