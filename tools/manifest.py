#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and lib/registry.py (development helper)."""
import json, os, sys, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/lib')
from registry import REG, NOT_APPLICABLE
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in REG:
        r = REG[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique=r.get('technique', 'stateless model checking: bounded-exhaustive exploration of operation sequences / inputs on the real code, every execution checked against a reference model'),
            level=r.get('level', 'model_checking'),
            level_note=r.get('note', r['rule'])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'not built yet')))
commits = []
m = dict(version=1, setup_cmd='./check --setup', hooks=dict(guard='none', enable='none: the harnesses use only the public API of the library', source_commits=commits), checks=checks, not_applicable=na)
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
