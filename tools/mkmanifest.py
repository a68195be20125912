#!/usr/bin/env python3
# Writes ../MANIFEST.json from the registered checks and the table below.
import json, os, re, glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
have=set()
for f in glob.glob(os.path.join(root,"vstat","*.go")):
    have|=set(re.findall(r'checks\["([A-Z]\d\d)"\] = ',open(f).read()))
tech=json.load(open(os.path.join(here,"techniques.json")))
na=json.load(open(os.path.join(here,"not_applicable.json")))
checks=[]; nas=[]
for p in props:
    i=p["id"]
    if i in have:
        t=tech.get(i,{})
        checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"bash check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":t.get("technique","static dataflow over the type-checked SSA of the current sources"),
          "level":"other","level_note":t.get("note","Static analysis of all paths of the current sources; see DESIGN.md section "+i+" for the clauses decided and what is trusted.")})
    else:
        nas.append({"property":i,"reason":na.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":nas,
 "notes":"One analyser (vstat) decides all properties from the sources of /repo; it needs no hooks in /repo. Repairs of genuine defects are listed in KNOWN_FINDINGS.txt."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
print(len(checks),"checks,",len(nas),"not applicable")
