#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/claims.json and properties.jsonl."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claims=json.load(open(V+'/tools/claims.json'))
m=dict(version=1,setup_cmd=claims['setup_cmd'],hooks=claims['hooks'],checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in claims['checks']:
        c=claims['checks'][i]
        m['checks'].append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
            technique=c['technique'],level=c['level'],level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=claims['not_applicable'].get(i,"not yet built: contracts for this property are being written")))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks',len(m['not_applicable']),'n/a')
