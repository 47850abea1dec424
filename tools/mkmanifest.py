#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {
 'C21': 'The verification conditions are generated over the real numbers: machine arithmetic is treated as mathematical, so contracts in this framework cannot state a bound on rounding errors, and no floating-point deductive verifier for C++ (nor Frama-C WP) is installed. The runtime checks of the other properties use error-bounded oracles but decide nothing about the size of the rounding error.',
}
LEVEL = {}
TECH = {}
NOTE = {}
exec(open(H + '/tools/levels.py').read())
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py %s --thorough' % i,
        technique=TECH[i], level=LEVEL[i], level_note=NOTE[i]))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes='No hooks in /repo. Known findings: /verif/known-findings. See DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
