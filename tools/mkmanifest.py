#!/usr/bin/env python3
import json,os
H=os.path.dirname(os.path.abspath(__file__))
LEVEL={}
def c(id,level,tech,note): LEVEL[id]=(level,tech,note)
exec(open(os.path.join(H,"claims.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(H,"..","properties.jsonl"))]
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"verif","enable":"no hooks were needed: the harness is added to the build with -overlay and the code under test is watched at its filesystem, logger, validation-context and extension interfaces","source_commits":[]},"checks":[],"not_applicable":[]}
for p in props:
    if p in LEVEL:
        l,t,n=LEVEL[p]
        m["checks"].append({"property":p,"quick_cmd":"VERIF_TIER=quick ./check.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+p,"technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"no check has been built for it yet")})
json.dump(m,open(os.path.join(H,"..","MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
