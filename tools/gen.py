#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import PROPS, NA
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
m = {'version': 1, 'setup_cmd': 'bash ./build.sh', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are one static analyser, /verif/sa, run once per property on the type-checked SSA form of /repo; no code of /repo is executed. No hooks are added to /repo.'}
for p in PROPS:
    m['checks'].append({
        'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': './check.sh ' + p['id'],
        'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
for p in NA:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed,', len(NA), 'not applicable')
