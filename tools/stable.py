#!/usr/bin/env python3
"""stable.py OUT.json: are all stable baseline tests in the passed list of OUT.json?"""
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
miss = sorted(set(b['stable']) - set(o['passed']))
print('stable tests missing:', miss) if miss else print('all %d stable tests pass (%d passed in all)' % (len(b['stable']), len(o['passed'])))
sys.exit(1 if miss else 0)
