#!/usr/bin/env python3
"""writes MANIFEST.json from checks/registry.py and properties.jsonl"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import registry as R
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in R.CLAIMED:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': R.TECHNIQUE.get(i, R.TECH), 'level': 'other',
                       'level_note': R.NOTES.get(i, '') or R.NOTE})
    else:
        na.append({'property': i, 'reason': R.NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import compileall; print(0)"', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis of the Python source; nothing of /repo is imported or run by a check. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
