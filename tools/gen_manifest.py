#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level='exploration', level_note=c['level_note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
assert not set(CHECKS) - set(ids)
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Every check builds harness/ (a separate Go module that replaces the repository modules by /repo) and runs rapid property tests; see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
