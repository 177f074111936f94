#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(here+"/properties.jsonl")]
C={}
def claim(id,technique,note): C[id]=(technique,note)
exec(open(here+"/tools/claims.py").read())
NA={}
exec(open(here+"/tools/na.py").read())
m={"version":1,"setup_cmd":"./build.sh >/dev/null","checks":[],"not_applicable":[],
"notes":"Pure static analysis: one Go program (checker/) loads and type-checks /repo with go/packages, builds SSA and decides each property from it; /repo is never executed. No hooks in /repo."}
for i in ids:
    if i in C:
        t,n=C[i]
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check has been built for it yet")})
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
open(here+"/MANIFEST.json","a").write("\n")
