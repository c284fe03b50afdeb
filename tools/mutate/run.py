#!/usr/bin/env python3
"""run.py MUTANTS.jsonl RESULTS.jsonl [WORKERS] [FILTER-REGEX]: tries mutants (see main.go) one by one
in scratch copies: does it build, do the repository's tests catch it, and if
not, which of the checks does."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
mutants=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]
workers=int(sys.argv[3]) if len(sys.argv)>3 else 4
if len(sys.argv)>4: mutants=[m for m in mutants if re.search(sys.argv[4],m["file"]+":"+m["func"]+":"+m["what"])]
seen=set()
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); seen.add((m["file"],m["start"],m["end"],m["new"]))
verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",CGO_ENABLED="0")
ALL=["C%02d"%i for i in range(1,32)]
FIRST=[("marshaller.go","C20 C05 C01 C02 C03 C22 C18"),("probe.go","C13 C14 C15 C16 C04"),("read.go","C06 C08 C07 C09 C18"),
 ("string.go","C17 C20"),("field.go","C20 C21"),("bitio","C22 C20 C19 C18"),("mp4.go","C21 C24"),("box.go","C23 C22 C20"),
 ("box_info.go","C11 C10 C07 C06"),("write.go","C10 C12 C18"),("extract.go","C09 C18"),("metadata","C01 C17 C02 C03 C08"),("box_types","C01 C02 C03 C17 C23 C05 C21"),
 ("internal/extract","C25 C31"),("internal/dump","C26 C31"),("internal/edit","C27 C31"),("internal/divide","C28 C31"),("internal/probe/","C29 C31"),("psshdump","C30 C31"),("mp4tool","C25 C26 C27 C28 C29 C30 C31 C04"),("internal/util/string","C17")]
def order(f):
    o=[]
    for k,v in reversed(FIRST):
        if k in f: o+=[x for x in v.split() if x not in o]
    o+=[x for x in ALL if x not in o]
    if "mp4tool" in f: o=[x for x in o if x in o[:7] or x>="C25" or x=="C04"]
    else: o=[x for x in o if x<"C25" or x in("C26","C27","C29")]
    return o
def sh(cmd,cwd,timeout,e=None):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=e or env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=timeout)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired:
        return -1,"timeout"
lock=threading.Lock()
random.seed(int(os.environ.get("SHUFFLE","1"))); random.shuffle(mutants)
q=queue.Queue()
for m in mutants:
    if (m["file"],m["start"],m["end"],m["new"]) not in seen: q.put(m)
print(q.qsize(),"to try",flush=True)
def worker(k):
    d=tempfile.mkdtemp(prefix="mut.")
    try:
        repo=os.path.join(d,"repo")
        subprocess.check_call(["git","clone","-q","/repo",repo])
        h=os.path.join(d,"harness"); shutil.copytree(os.path.join(verif,"harness"),h)
        shutil.copy(os.path.join(verif,"known_findings.txt"),d)
        gm=os.path.join(h,"go.mod"); s=open(gm).read().replace("/repo",repo); open(gm,"w").write(s)
        rc,o=sh(["go","run","./gentypes","-seed","1","-n","250","-o",d+"/user_gen.go"],h,300); assert rc==0,o
        json.dump({"Replace":{h+"/user_gen.go":d+"/user_gen.go"}},open(d+"/overlay.json","w"))
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            p=os.path.join(repo,m["file"]); orig=open(p,"rb").read()
            try:
                open(p,"wb").write(orig[:m["start"]]+m["new"].encode()+orig[m["end"]:])
                r=dict(m); r["status"]=try1(repo,h,d,m)
            finally:
                open(p,"wb").write(orig)
            with lock:
                open(out,"a").write(json.dumps(r)+"\n")
    finally:
        shutil.rmtree(d,ignore_errors=True)
def try1(repo,h,d,m):
    rc,o=sh(["go","build","./..."],repo,120)
    if rc: return "nobuild"
    rc,o=sh(["go","test","-vet=off","-count=1","-timeout","60s","./..."],repo,120)
    if rc: return "tests"
    rc,o=sh(["go","build","-o",d+"/pbt","."],h,200)
    if rc: return "harness does not build"
    built=tool=False
    tried=[]
    for c in order(m["file"]):
        e=dict(env,TMPDIR=d); b=d+"/pbt"
        if c=="C20":
            if not built:
                rc,o=sh(["go","build","-overlay",d+"/overlay.json","-o",d+"/pbt20","."],h,300); assert rc==0,o
                built=True
            b=d+"/pbt20"
        if c>="C25":
            if not tool: sh(["go","build","-o",d+"/mp4tool","./cmd/mp4tool"],repo,120); tool=True
            e["PBT_MP4TOOL"]=d+"/mp4tool"
        rc,o=sh([b,"-prop",c,"-tier","quick","-seed","1","-root",d,"-repo",repo,"-scale",os.environ.get("SCALE","0.2")],d,240,e)
        if rc==1 and "VIOLATION" in o: return "caught "+c
        if rc: return f"check {c} exit {rc}: {o[-300:]}"
    return "survived"
ts=[threading.Thread(target=worker,args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
