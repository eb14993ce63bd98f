#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.json and properties.jsonl"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf=json.load(open(V+'/contracts/props.json')); na=json.load(open(V+'/contracts/not_applicable.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[];no=[]
for p in props:
    i=p['id']
    if i in conf:
        c=conf[i]
        checks.append({'property':i,'quick_cmd':f'python3 tools/check.py {i}','thorough_cmd':f'VERIF_TIER=thorough python3 tools/check.py {i}','evidence_file':f'evidence/{i}.json',
          'technique':c.get('technique','Verus contracts on the functions extracted from /repo; failing inputs searched with the real code'),'level':c.get('level','proof'),'level_note':c['note']})
    else: no.append({'property':i,'reason':na.get(i,'contracts for this part of the code are not written yet')})
json.dump({'version':1,'setup_cmd':'python3 tools/check.py --setup','hooks':{'guard':'cfg(basjoofan_verif)','enable':"RUSTFLAGS='--cfg basjoofan_verif' cargo build (tools/check.py does it for the harness and the program)",'source_commits':['13083ad']},
 'checks':checks,'not_applicable':no,'notes':'Repairs of /repo and findings: known_findings.txt. Configuration per property: contracts/props.json.'},open(V+'/MANIFEST.json','w'),indent=1)
