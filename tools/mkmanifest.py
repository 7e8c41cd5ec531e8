#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl, tools/claims.json and the not-applicable reasons below
import json,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(d+'/properties.jsonl') if l.strip()]
claims=json.load(open(d+'/tools/claims.json'))
na={
 'C28':"concurrent use of one connection: the verifier executes one goroutine; a contract system for shared memory (ownership of the mutex-protected state) for Go is not among the installed tools and building one is out of reach here",
 'C29':"termination and liveness: the contracts prove partial correctness (safety) only; liveness depends on the transport and the peer delivering",
}
checks=[]
nal=[]
for p in props:
    i=p['id']
    if i in claims:
        c=claims[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,
          "technique":c.get("technique","contract-based deductive verification (contracts on the real Go functions, discharged by govc with SMT back ends)"),
          "level":c.get("level","proof"),"level_note":c["note"]})
    else:
        nal.append({"property":i,"reason":na.get(i,"no check yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":nal},open(d+'/MANIFEST.json','w'),indent=1)
open(d+'/MANIFEST.json','a').write('\n')
