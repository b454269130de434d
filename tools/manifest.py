#!/usr/bin/env python3
# Writes MANIFEST.json from props.json and properties.jsonl.
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=json.load(open('props.json'))
allp=[json.loads(l) for l in open('properties.jsonl') if l.strip()]
NA={}
checks=[];na=[]
for p in allp:
    i=p['id']
    if i in props:
        checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'VERIF_TIER=thorough ./check.sh '+i,'evidence_file':'evidence/%s.json'%i,
         'technique':'contract-based deductive verification: govc generates verification conditions from the current Go source (SSA), Verus/z3 discharges them',
         'level':'proof',
         'level_note':'Every obligation of the functions under contract is proved for all inputs, unbounded. Trusted: govc itself (VC generation), Verus/z3, the contracts in contracts/std.ctr and other "trusted" contracts on dependencies (checked against reality only by the bounded conformance run), int as 64 bit with overflow as an obligation.'+(' '+' '.join(props[i].get('notes',[])) if props[i].get('notes') else '')})
    else:
        na.append({'property':i,'reason':NA.get(i,'Not claimed yet: the contracts of the functions it depends on are still being written.')})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,'notes':'See DESIGN.md. Each check writes evidence/<id>.json; a failing check writes evidence/<id>.replay.txt.'},open('MANIFEST.json','w'),indent=1)
