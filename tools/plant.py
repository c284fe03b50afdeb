#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: turns bug descriptions into /verif/seeded/<id>/ after
confirming each in a scratch copy: builds, passes the tests, demo passes on the
clean tree and fails with the patch.

FILE.py defines bugs = [dict(id, property, edits=[(file, old, new)...], pkg, demo, needs, breaks)].
"""
import json, os, subprocess, sys, shutil, tempfile
here=os.path.dirname(os.path.abspath(__file__))
SEED=os.environ.get("SEED",os.path.join(here,"..","seeded"))
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",CGO_ENABLED="0")
DEMO='''#!/bin/bash
# Runs the demonstration test beside this file inside the package it names.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD/PKG" "$here" >"$t/overlay.json"
TMPDIR="$t" go test -overlay "$t/overlay.json" -vet=off -run '^TestDemo$' -count=1 -timeout 120s ./PKG
'''
def sh(cmd,cwd,timeout=600):
    p=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,shell=isinstance(cmd,str))
    return p.returncode,p.stdout
def one(b):
    d=tempfile.mkdtemp(prefix="plant.")
    w=os.path.join(d,"repo"); out=os.path.join(d,"out"); os.makedirs(out)
    try:
        subprocess.check_call(["git","clone","-q","/repo",w])
        pkg=b.get("pkg",".")
        demo=DEMO.replace("PKG",pkg)
        if b.get("race"): demo=demo.replace("CGO_ENABLED=0","CGO_ENABLED=1").replace("go test","go test -race")
        open(os.path.join(out,"demo.sh"),"w").write(demo)
        open(os.path.join(out,"demo_test.go"),"w").write(b["demo"])
        rc,o=sh(["bash",os.path.join(out,"demo.sh")],w)
        if rc!=0: return "demo fails on the clean tree:\n"+o[-1500:]
        for f,old,new in b["edits"]:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(old)!=1: return f"{f}: {s.count(old)} matches of {old!r}"
            open(p,"w").write(s.replace(old,new))
        rc,o=sh("gofmt -l .",w)
        rc,o=sh("go build ./... && go vet ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'; exit ${PIPESTATUS[0]}" if False else "go build ./...",w)
        if rc: return "build:\n"+o[-1500:]
        rc,o=sh("go test -vet=off -count=1 ./...",w)
        if rc: return "tests fail:\n"+"\n".join(l for l in o.splitlines() if 'FAIL' in l or 'Error' in l)[:1500]
        rc,o=sh(["bash",os.path.join(out,"demo.sh")],w)
        if rc==0: return "demo passes with the change"
        if "build failed" in o or "setup failed" in o: return "demo does not build:\n"+o[-1500:]
        diff=subprocess.run(["git","-C",w,"diff"],stdout=subprocess.PIPE).stdout
        open(os.path.join(out,"patch.diff"),"wb").write(diff)
        json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["breaks"]),open(os.path.join(out,"meta.json"),"w"),indent=1)
        dst=os.path.join(SEED,b["id"])
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out,dst)
        return None
    finally:
        shutil.rmtree(d)
ns={}
exec(open(sys.argv[1]).read(),ns)
for b in ns["bugs"]:
    if len(sys.argv)>2 and b["id"] not in sys.argv[2:]: continue
    r=one(b)
    print(b["id"],"ok" if r is None else "REJECTED: "+r,flush=True)
