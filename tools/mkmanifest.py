#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of finished checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
from techniques import TECH
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 mc/check.py %s' % i, 'thorough_cmd': 'python3 mc/check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'Check under construction: not claimed yet.'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import json; json.load(open(\'MANIFEST.json\'))" && g++ --version', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds what it needs from the working tree of /repo (header-only library) in /verif/.build and removes it. No hooks in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', ', '.join(x['property'] for x in na), 'not')
