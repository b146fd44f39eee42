#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rule modules (each names its deciding method in TECHNIQUE and its strength in NOTE)."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = os.path.join(HERE, 'rules', p.lower() + '.py')
    if os.path.exists(f) and p not in NA:
        m = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'NOTE'):
                m[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                           technique='static analysis: ' + m['TECHNIQUE'], level='other', level_note=m['NOTE']))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no static rule that decides it has been built yet')))
json.dump(dict(version=1, setup_cmd='python3 analysis/build.py rw', checks=checks, not_applicable=na,
               notes='Every check builds the compiler driver and the facts (type-checked MIR) of /repo by itself; nothing is kept between runs.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
