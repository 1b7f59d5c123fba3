#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when lib/checks.py has a function of its name."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(checks, 'NOT_APPLICABLE', {})
out = {'version': 1, 'setup_cmd': 'lib/build.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    fn = getattr(checks, i, None)
    if fn is None:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'the check of this property is not built yet')})
        continue
    out['checks'].append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --thorough' % i,
                          'technique': fn.technique, 'level': 'model_checking', 'level_note': fn.note})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'claimed')
