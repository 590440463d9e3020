#!/usr/bin/env python3
# Writes MANIFEST.json from tools/claims.json and properties.jsonl.
import json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
claims=json.load(open('tools/claims.json'))
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
checks=[];na=[]
for i in ids:
    c=claims['checks'].get(i)
    if c:
        checks.append({'property':i,'quick_cmd':f'sh check.sh {i} quick','thorough_cmd':f'sh check.sh {i} thorough',
          'technique':c['technique'],'level':'other','level_note':c['note']})
    else:
        na.append({'property':i,'reason':claims['not_applicable'][i]})
json.dump({'version':1,'setup_cmd':'sh setup.sh','checks':checks,'not_applicable':na},open('MANIFEST.json','w'),indent=1)
