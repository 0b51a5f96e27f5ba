#!/usr/bin/env python3
"""Development aid: small edits of /repo with the verdict expected of a check ("ok" = behaviour kept, the check must stay quiet;
"bad" = property broken, the check must alarm).  mut.py [PROP ...] runs them on scratch copies; TESTS=1 also runs the test suite."""
import os,sys,subprocess,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M=[]
def mut(prop,name,expect,*edits): M.append((prop,name,expect,edits))
here=os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(here+"/muts")):
    if f.endswith(".py"): exec(compile(open(here+"/muts/"+f).read(),f,"exec"))
def go(m):
    prop,name,expect,edits=m
    d=tempfile.mkdtemp(prefix="mut",dir="/tmp")
    try:
        subprocess.check_call(["bash",V+"/tools/scratch.sh",d])
        for f,a,b in edits:
            p=d+"/repo/"+f; x=open(p).read() if os.path.exists(p) else ""
            if a=="": x+=b
            elif x.count(a)!=1: return "%s/%s: edit does not apply once: %s %d %r"%(prop,name,f,x.count(a),a[:50])
            else: x=x.replace(a,b)
            open(p,"w").write(x)
        sh=lambda c: subprocess.run(". %s/env.sh; cd %s/repo; %s"%(d,d,c),shell=True,executable="/bin/bash",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
        r=sh("go build ./...")
        if r.returncode: return "%s/%s: BUILD %s"%(prop,name,r.stdout[-600:])
        note=""
        if os.environ.get("TESTS"):
            r=sh("go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'")
            if r.stdout.strip(): note=" (TESTS FAIL)"
        os.makedirs(d+"/v",exist_ok=True); shutil.copy(V+"/known_findings.txt",d+"/v/")
        import time; t=time.time()
        r=sh("%s -prop %s -repo %s/repo -verif %s/v"%(os.environ.get("BIN",V+"/bin/checker"),prop,d,d))
        und=[l for l in r.stdout.split("\n") if "UNDECIDED" in l]
        got="ok" if r.returncode==0 else "bad"
        s="%s/%s: %s%s%s %.1fs"%(prop,name,"as expected" if got==expect else "<<<<<< expected %s got %s"%(expect,got),note," "+"; ".join(und)[:200] if und else "",time.time()-t)
        if got!=expect and got=="bad" or os.environ.get("SHOW"): s+="\n"+"\n".join(r.stdout.split("\n")[:int(os.environ.get("SHOW","14"))])
        return s
    except subprocess.TimeoutExpired: return "%s/%s: TIMEOUT"%(prop,name)
    finally: shutil.rmtree(d,ignore_errors=True)
sel=sys.argv[1:]
ms=[m for m in M if not sel or m[0] in sel or m[0]+"/"+m[1] in sel]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(6) as ex:
    for s in ex.map(go,ms): print(s,flush=True)
