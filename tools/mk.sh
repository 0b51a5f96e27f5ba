#!/bin/bash
# mk.sh PROP/NAME DIR: scratch copy with one mutant applied
bash /verif/tools/scratch.sh $2
cd /verif/tools && python3 - $1 $2 <<'X'
import sys,types,glob,runpy
M=[]
m=types.ModuleType("mut"); m.mut=lambda p,n,e,*ed: M.append((p+"/"+n,ed)); sys.modules["mut"]=m
for f in glob.glob("muts/*.py"):
    src=open(f).read()
    exec(compile(src,f,"exec"),{"mut":m.mut})
for n,ed in M:
    if n==sys.argv[1]:
        for f,a,b in ed:
            p=sys.argv[2]+"/repo/"+f; x=open(p).read(); assert x.count(a)==1; open(p,"w").write(x.replace(a,b))
X
