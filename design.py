#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md + one section per property + tables of repaired defects and planted bugs."""
import json, os, glob, sys
h = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, h)
from vp.props import P
try: from vp.props import NA
except ImportError: NA = {}
o = [open(h + '/design_head.md').read().rstrip(), '', '## Properties, one by one', '']
for i, p in P.items():
    o += ['### %s  %s' % (i, p['title']), '', p['statement'], '']
    if i in NA: o += ['Not applicable: ' + NA[i], '']; continue
    o += ['* Method: ' + (p['expl'] or p['technique']).strip(), '* Check: `checks/%s.py`. Bounds: %s.' % (i.lower(), p['bounds'].rstrip('.')), '* Why tests do not settle it: ' + p['why_tests_cant'].rstrip('.') + '.',
          '* Anchors: ' + '; '.join('%s (%s)' % (m['name'], m['where']) for m in p['anchors']['mechanism']), '']
k = json.load(open(h + '/known_findings.json'))
o += ['## Genuine defects found and repaired ("fix:" commits in /repo)', '', 'The checks report each of these when its commit is reverted.', '', '| property | commit | what failed |', '|---|---|---|']
o += ['| %s | %s | %s |' % (x['property'], x['commit'], x['what'].replace('|', '\\|')) for x in k if x['status'] == 'fixed']
kn = [x for x in k if x['status'] != 'fixed']
o += ['', 'Known findings (not repaired): ' + ('none.' if not kn else '; '.join(x['property'] + ': ' + x['what'] for x in kn))]
st = json.load(open(h + '/seed_status.json')) if os.path.exists(h + '/seed_status.json') else {}
o += ['', '## Planted bugs (seeded/) and what catches them', '', '| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(h + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); o.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], st.get(s, m['property'] + ' (own check)')))
open(h + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
