#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, 'tools'))
from props import PROPS, NA
T = 'static analysis: '
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['id']
        assert len([x for x in p['statement'].split('. ') if x]) <= 3, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(D, 'sa', 'rules', p['id'].lower() + '.py')):
        sys.exit('no rule for ' + p['id'])
    checks.append({'property': p['id'], 'quick_cmd': 'python3 -W ignore -m sa ' + p['id'],
                   'thorough_cmd': 'python3 -W ignore -m sa %s --thorough' % p['id'],
                   'technique': T + p['tech'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
