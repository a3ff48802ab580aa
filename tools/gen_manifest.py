#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=q['technique'], level=q['level'], level_note=q['level_note']))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks are needed in /repo.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
