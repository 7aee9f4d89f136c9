#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule table and spec/claims.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.rules import TABLE
from spec.claims import TECH, NA
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
na = []
for p in props:
    if p in TABLE:
        t, note = TECH[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No sound static rule was built for it in this codebase.')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
