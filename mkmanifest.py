#!/usr/bin/env python3
"""Writes MANIFEST.json from props/*.py (TECHNIQUE, LEVEL, NOTE) and na.json."""
import json, os, sys, glob, importlib.util
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import vf
checks = []
for f in sorted(glob.glob(V + '/props/C*.py')):
    pid = os.path.basename(f)[:-3]
    m = vf.load(pid)
    checks.append(dict(property=pid, quick_cmd='python3 vf.py %s quick' % pid, thorough_cmd='python3 vf.py %s thorough' % pid,
                       technique=getattr(m, 'TECHNIQUE', 'contracts on the C functions of /repo, verification conditions generated and discharged by CBMC 6.11 (goto-cc/goto-instrument) from the current source'),
                       level=getattr(m, 'LEVEL', 'proof'), level_note=m.NOTE))
na = json.load(open(V + '/na.json'))
have = {c['property'] for c in checks}
json.dump(dict(version=1, setup_cmd='python3 vf.py --setup', hooks=dict(guard='VF_NONE', enable='no hooks are needed: the machinery reads /repo as it is', source_commits=[]),
               checks=checks, not_applicable=[x for x in na if x['property'] not in have]), open(V + '/MANIFEST.json', 'w'), indent=1)
print(sorted(have))
