#!/usr/bin/env python3
# Generates MANIFEST.json.
import json,os,subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
from checks import CHECKS,NA
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":[],
   "notes":"All checks are static analyses of /repo's current source by /verif/checker (Go, golang.org/x/tools/go/ssa). No code of /repo is run. known_findings.txt lists the defects found."}
for p in props:
    i=p["id"]
    if i in CHECKS:
        t,n=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"bash run.sh "+i,"thorough_cmd":"bash run.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
open(root+"/MANIFEST.json","a").write("\n")
