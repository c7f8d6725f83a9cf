import os, subprocess, json, sys
RC="/tmp/rc"
DEMO='''#!/bin/bash
# builds demo.cpp against the libraries in /repo and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'cd /; rm -rf "$W"' EXIT
g++ -g -O1 -std=c++11 -w -fopenmp -DSTATISTICS -DUSE_NUMA -I$R -I$R/binding -I$R/libkcommon -I$R/libman -I$R/libauto "$D/demo.cpp" -o "$W/demo" \\
   %s$R/libauto/libauto.a $R/libman/libman.a $R/libkcommon/libkcommon.a -lnuma -lpthread || exit 99
cd "$W" && timeout %d ./demo > out.txt 2>&1; rc=$?
tail -5 out.txt; echo "demo exit $rc"; exit $rc
'''
MDEMO='''#!/bin/bash
# builds demo.cpp against the libraries in /repo and runs it under mpirun in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'cd /; rm -rf "$W"' EXIT
mpicxx.mpich -g -O1 -std=c++11 -w -fopenmp -DSTATISTICS -DUSE_NUMA -I$R -I$R/libkcommon -I$R/libman -I$R/libdist "$D/demo.cpp" -o "$W/demo" \\
   $R/libdist/libdist.a $R/libman/libman.a $R/libkcommon/libkcommon.a -lnuma -lpthread || exit 99
cd "$W" && timeout %d env OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 mpirun.openmpi --oversubscribe -n %d ./demo > out.txt 2>&1; rc=$?
tail -5 out.txt; echo "demo exit $rc"; exit $rc
'''
def plant(name, prop, edits, needs, breaks, cpp, ld="", t=60, mpi=0):
    D=os.environ.get("SEEDDIR","/tmp/mp/seeded")+"/"+name; os.makedirs(D, exist_ok=True)
    subprocess.check_call(["git","-C",RC,"checkout","-q","--","."])
    for f,a,b in edits:
        p=RC+"/"+f; s=open(p).read()
        assert s.count(a)==1, (name,f,s.count(a))
        open(p,"w").write(s.replace(a,b))
    d=subprocess.check_output(["git","-C",RC,"diff"]).decode(); open(D+"/patch.diff","w").write(d)
    subprocess.check_call(["git","-C",RC,"checkout","-q","--","."])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(D+"/meta.json","w"))
    open(D+"/demo.cpp","w").write(cpp)
    open(D+"/demo.sh","w").write(MDEMO%(t,mpi) if mpi else DEMO%((ld+" ") if ld else "",t))
    # which lines does it remove? must be original
    for l in d.splitlines():
        if l.startswith("-") and not l.startswith("---") and len(l.strip())>4:
            o=subprocess.run("git -C /repo show 9ab9f7c:%s | grep -Fxc -- %s"%(edits[0][0], "'"+l[1:].replace("'","'\\''")+"'"),shell=True,capture_output=True,text=True).stdout.strip()
            if o=="0": print("WARN",name,"not an original line:",l)
