#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.props import P
here = os.path.dirname(os.path.abspath(__file__))
keys = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
NA = {}
try:
    from vp.props import NA
except ImportError: pass
with open(here + '/properties.jsonl', 'w') as f:
    for p in P.values():
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: p[k] for k in keys}) + '\n')
checks = []
for id, p in P.items():
    if id in NA: continue
    cmd = 'python3-vt checks/%s.py' % id.lower()
    assert os.path.exists('%s/checks/%s.py' % (here, id.lower())), id
    checks.append(dict(property=id, quick_cmd='VERIF_TIER=quick ' + cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, technique=p['technique'], level='other',
                       level_note=(p['note'] or 'Bounded: holds for every value within the stated bounds (' + p['bounds'] + '); every counterexample is replayed on the real code before it is reported.')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='Checks compile/encode /repo\'s current sources on every run; no hooks in /repo.'), open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
