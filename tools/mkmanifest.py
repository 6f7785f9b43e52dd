#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, 'tools'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: every monitor observes through the public API, so nothing is guarded. Repairs are the fix: commits listed in known_findings.txt.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py check %s --tier quick' % i,
            'thorough_cmd': 'python3 run.py check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': c['technique'], 'level': c.get('level', 'exploration'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
