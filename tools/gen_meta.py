#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=[p.get('observe', 'results of public API calls')], hook_needed=None))) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE: continue
    assert p['id'] in CHECKS, p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='model_checking', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks,
  not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
  notes='No hooks in /repo: the explorers use only the public headers. run.py rebuilds the library from the working tree of /repo for every changed tree.'),
  open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
missing = set(CHECKS) - {p['id'] for p in PROPS}
if missing: print('checks without property text:', missing)

import design; design.main()
