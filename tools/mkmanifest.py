#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after changing it)."""
import json,os,subprocess
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
exec(open(V+'/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":TECH.get(i) or "contract-based deductive verification of the Go source (gocv: contracts, weakest-precondition/symbolic execution function by function, loop invariants, SMT back ends z3 and cvc5); failed obligations are replayed on the real code",
          "level":LEVEL.get(i,"proof"),"level_note":NOTE.get(i,CLAIMED[i])})
    else:
        na.append({"property":i,"reason":NA.get(i,"not built yet")})
m={"version":1,"setup_cmd":"bash gocv/build.sh && bash setup.sh","hooks":{"guard":"verif","enable":"no hooks are needed: contracts live in /verif/contracts and are bound to the functions of /repo by name","source_commits":[]},"checks":checks,"not_applicable":na,
"notes":"The verifier reads /repo's current source on every run; see DESIGN.md."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
