#!/usr/bin/env python3
"""Planted bugs: each is a list of edits to /repo plus a demonstration test.  `seeds.py ID...` (re)creates and validates
/verif/seeded/<ID> in a scratch copy and says which checks catch it.  `seeds.py` does all that do not exist."""
import os,sys,json,subprocess,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S={}
def seed(id,prop,pkg,edits,demo,needs,breaks): S[id]=dict(prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks)
def run(cmd,cwd,env=None,t=300):
    r=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,executable="/bin/bash")
    return r.returncode,r.stdout
def make(id):
    s=S[id]; d=tempfile.mkdtemp(prefix="seed",dir="/tmp")
    try:
        subprocess.check_call(["bash",V+"/tools/scratch.sh",d])
        repo=d+"/repo"
        run("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x",repo)
        out=V+"/seeded/"+id
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        open(out+"/demo_test.go.txt","w").write(s["demo"].lstrip("\n")); open(out+"/pkg","w").write(s["pkg"]+"\n")
        t=open(V+"/tools/demo_template.sh").read(); open(out+"/demo.sh","w").write(t); os.chmod(out+"/demo.sh",0o755)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(out+"/meta.json","w"),indent=1)
        # the demo sources /opt/vp/env.sh; in the scratch copy use the scratch env
        demo="sed 's#/opt/vp/env.sh#%s/env.sh#' %s/demo.sh > %s/demo.sh; cp %s/pkg %s/demo_test.go.txt %s/; bash %s/demo.sh"%(d,out,d,out,out,d,d)
        rc,o=run(demo,repo)
        if rc!=0: print(id,"DEMO FAILS ON CLEAN TREE\n"+o[-1500:]); return False
        for f,a,b in s["edits"]:
            p=repo+"/"+f; x=open(p).read()
            if x.count(a)!=1: print(id,"edit does not apply once:",f,x.count(a),repr(a[:60])); return False
            open(p,"w").write(x.replace(a,b))
        run("gofmt -w "+" ".join(sorted({f for f,_,_ in s["edits"]})) if False else "true",repo)
        rc,o=run("git diff",repo); open(out+"/patch.diff","w").write(o)
        rc,o=run(". %s/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'"%d,repo)
        if o.strip(): print(id,"BUILD/TEST OUTPUT:\n"+o[-1500:]); return False
        rc,o=run(demo,repo)
        if rc==0: print(id,"DEMO PASSES WITH THE BUG"); return False
        os.makedirs(d+"/v",exist_ok=True)
        caught=[]
        ids=subprocess.check_output([V+"/bin/checker","-list"],text=True).split()
        if os.environ.get("FAST"): ids=[i for i in ids if i==s["prop"]]
        for i in ids:
            rc,o=run(". %s/env.sh; %s/bin/checker -prop %s -repo %s -verif %s/v"%(d,V,i,repo,d),repo,t=900)
            if rc!=0:
                caught.append(i)
                if os.environ.get("SHOW"): print(o[:int(os.environ["SHOW"])])
        print(id,"property",s["prop"],"caught by",caught, "" if s["prop"] in caught else "<<<< MISSED",flush=True)
        return True
    finally: shutil.rmtree(d,ignore_errors=True)
here=os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(here+"/seeds")):
    if f.endswith(".py"): exec(compile(open(here+"/seeds/"+f).read(),f,"exec"))
if __name__=="__main__":
    ids=sys.argv[1:] or [i for i in S if not os.path.exists(V+"/seeded/"+i+"/patch.diff")]
    if ids==["all"]: ids=list(S)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: list(ex.map(make,ids))
