#!/usr/bin/env python3
"""development helper: fixed.py PROPERTY COMMIT KEY TEXT - records a repaired defect in known_findings.json"""
import json, sys
p, c, k, t = sys.argv[1:5]
f = '/verif/known_findings.json'
d = json.load(open(f))
d.append({'property': p, 'status': 'fixed', 'commit': c, 'key': k, 'line': 'fixed: property=%s %s %s' % (p, c, t)})
json.dump(d, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
