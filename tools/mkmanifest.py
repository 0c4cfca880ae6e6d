#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import check
TRUST = ('Exhaustive within the bounds of the model given in DESIGN.md; trusts TLC, the Go toolchain, the fakes of the harness '
         'and the correspondence between model actions and harness steps.')
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read(), T)
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in check.CHECKS:
        tech, note = T['TECH'][p]
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 bin/check.py %s' % p,
                           thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s' % p,
                           technique=tech, level=check.CHECKS[p][1], level_note=note + ' ' + TRUST))
    else:
        na.append(dict(property=p, reason='its check is not built yet'))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: everything is observed through the exported API, generated code, and network protocols.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
