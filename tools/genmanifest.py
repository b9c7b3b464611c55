#!/usr/bin/env python3
"""Writes MANIFEST.json from props/*.py (LEVEL, TECHNIQUE, NOTE) and the not-applicable table."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
exec(open(V + '/tools/not_applicable.py').read())
checks, na = [], []
for i in ids:
    f = V + '/props/%s.py' % i.lower()
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module('props.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
out = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
           notes='No hooks: the checks lower /repo/include with clang 18 and analyse the IR; nothing from /repo is executed.')
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
