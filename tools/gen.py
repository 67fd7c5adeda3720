#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code (Clang AST front end, weakest-precondition style symbolic evaluation per function, z3)'
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['qtext']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', [])}}) + '\n')
checks = []; na = list(NA)
for p in PROPS:
    if os.path.exists('%s/mxv/checks/%s.py' % (V, p['id'].lower())) and p.get('claim', True):
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'technique': p.get('tech', TECH), 'level': p.get('level', 'proof'), 'level_note': p['note']})
    else: na.append({'property': p['id'], 'reason': p.get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'claimed')
