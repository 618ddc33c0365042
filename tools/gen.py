#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py (the single source of both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from spec import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = ("Decided from the type-checked source on every run, for every input and history within the stated rule; "
  "loops over collections are examined for their first iterations (bounded unrolling), calls into cosmos-sdk, tendermint and the "
  "standard library are taken as documented, and a rule that finds its anchor gone or cannot decide fails. ")
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    checks.append({'property': p['id'],
        'quick_cmd': 'bash check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
        'technique': p['tech'], 'level': 'other', 'level_note': LEVEL_NOTE + p.get('note', '')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
  'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
  'notes': 'One static analyser (checker/, Go, x/tools vendored) decides all properties from /repo\'s current source; no hooks in /repo.'},
  open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
