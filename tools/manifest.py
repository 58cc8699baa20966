#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a check module, with its text below."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
LEVEL = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())

ids = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for pid in ids:
    path = os.path.join(HERE, 'wv', 'checks', pid.lower() + '.py')
    if os.path.exists(path) and pid in TECH:
        checks.append({'property': pid,
                       'quick_cmd': 'python3 run.py %s --tier quick' % pid,
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH[pid], 'level': LEVEL.get(pid, 'exploration'),
                       'level_note': NOTE[pid]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks run the real code of /repo in-process (no hooks in /repo; monitors wrap sources, sinks and '
              'public entry points from outside). Exit 0 held, 1 violation, 2 no verdict.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
