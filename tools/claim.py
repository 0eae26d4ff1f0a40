#!/usr/bin/env python3
"""claim.py ID LEVEL NOTE... : add/replace a claim in claims.json"""
import json, sys, os
# optional 4th argument: level
p = os.path.dirname(os.path.abspath(__file__)) + '/claims.json'
c = json.load(open(p))
ids = sys.argv[1].split(',')
for i in ids:
    c['checks'][i] = dict(technique=sys.argv[2], level=(sys.argv[4] if len(sys.argv) > 4 else "proof"), note=sys.argv[3])
    c['not_applicable'].pop(i, None)
json.dump(c, open(p, 'w'), indent=1)
