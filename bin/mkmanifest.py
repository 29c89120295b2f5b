#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: number state is public and the digit container, allocator, digit type and limits are template parameters, so monitors are supplied from outside.'}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 bin/check.py %s' % p, 'thorough_cmd': 'python3 bin/check.py %s --thorough' % p,
                            'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
