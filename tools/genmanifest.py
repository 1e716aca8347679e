import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={}
NA={'C15':'The functions named are pure: no schedule, clock, I/O, randomness, peer or fault for the property to depend on, so seeded simulation adds nothing over comparing values. Their observable consequences are decided under C01-C06, where an independent implementation takes part in every simulated session.'}
exec(open('/verif/tools/claims.py').read())
checks=[]
na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        checks.append(dict(property=i,quick_cmd='bash check.sh '+i,thorough_cmd='VERIF_TIER=thorough bash check.sh '+i,evidence_file='evidence/%s.json'%i,
          technique='deterministic simulation with fault injection: '+CLAIMS[i][0],level='exploration',level_note=CLAIMS[i][1]))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check under construction')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
 notes='Every check: bash check.sh <property>; replay: bash check.sh replay <file>. '+NOTES)
if HOOKS: m['hooks']=HOOKS
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
