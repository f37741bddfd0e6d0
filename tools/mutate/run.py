#!/usr/bin/env python3
"""run.py OUT [files...]: builds every mutant of /repo's files that compiles and passes the tests, runs the relevant
checks with a short budget from a copy of /verif, and writes killed/survived lines to OUT."""
import os, sys, subprocess, shutil, tempfile, queue, threading
ENV=dict(os.environ,HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build")
REL={"matrix.go":"C17 C08 C04 C19 C22","parse.go":"C06 C08 C11 C13 C09 C10 C12 C05 C14 C07","parse_path.go":"C01 C02 C03 C04 C13 C14 C18","path.go":"C18 C01",
"patterns.go":"C07 C10 C06 C20 C14","shapes.go":"C02 C04","styles.go":"C10","svg.go":"C12 C15 C11 C09 C13 C10 C14","svg_elements.go":"C04 C05 C10 C09 C11 C12 C03 C13 C14",
"types.go":"C06","units.go":"C05 C10 C06 C14","mask.go":"C11","renderer/options.go":"C22 C19 C20 C21 C14","renderer/draw2d/draw.go":"C19 C22 C23","renderer/gg/draw.go":"C21 C22 C23 C14","renderer/rasterx/draw.go":"C20 C22 C23 C14"}
BUDGET=os.environ.get("BUDGET","4"); SHARDS=os.environ.get("SHARDS","1"); PAR=int(os.environ.get("PAR","7"))
SRC=tempfile.mkdtemp(prefix="mutsrc"); shutil.copytree("/repo",SRC,dirs_exist_ok=True,ignore=shutil.ignore_patterns(".git")); shutil.copytree("/verif/mc",SRC+"/zmc")
out=open(sys.argv[1],"a"); lock=threading.Lock()
done=set(" ".join(l.split(" ",3)[1:3]) for l in open(sys.argv[1]))
def log(*a):
    with lock: out.write(" ".join(map(str,a))+"\n"); out.flush()
q=queue.Queue()
only=None
if len(sys.argv)>2 and sys.argv[2].startswith("@"):
    # by file and text, as the numbers and lines move
    only=set(l.split(" ",3)[1]+" "+l.split(": ",1)[1].strip() for l in open(sys.argv[2][1:]) if l.startswith("survived"))
for f in (REL if only is not None or len(sys.argv)<3 else sys.argv[2:]):
    ls=subprocess.run(["/tmp/w/mutate",SRC+"/"+f],stdout=subprocess.PIPE,text=True).stdout.splitlines()
    for l in ls:
        n,what=l.split(" ",1)
        if f+" "+n in done: continue
        if only is None and int(n)%int(os.environ.get("STRIDE","1")): continue
        if only is not None and f+" "+what.split(": ",1)[1].strip() not in only: continue
        if "curX" in what or "curY" in what: continue # always zero
        q.put((f,int(n),what))
def sh(cmd,cwd,t,env):
    try: return subprocess.run(cmd,cwd=cwd,env=env,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired: return None
def work():
    t=tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(SRC,t+"/repo",ignore=shutil.ignore_patterns("zmc"))
        shutil.copytree(SRC+"/zmc",t+"/mc"); shutil.copy("/verif/known-findings.jsonl",t)
        os.mkdir(t+"/tmp"); os.makedirs(t+"/evidence")
        for g in ("go.mod",):
            s=open(t+"/mc/"+g).read().replace("=> /repo","=> ../repo"); open(t+"/mc/"+g,"w").write(s)
        env=dict(ENV,VERIF_DIR=t,TMPDIR=t+"/tmp",MC_BUDGET_S=BUDGET,MC_SHARDS=SHARDS,MC_EVEN='1')
        while True:
            try: f,n,what=q.get_nowait()
            except queue.Empty: return
            m=subprocess.run(["/tmp/w/mutate",SRC+"/"+f,str(n)],stdout=subprocess.PIPE).stdout
            open(t+"/repo/"+f,"wb").write(m)
            try:
                p=sh("go build ./...",t+"/repo",60,env)
                if p is None or p.returncode: log("nobuild",f,n,what); continue
                p=sh("timeout 30 go test -vet=off -count=1 ./...",t+"/repo",60,env)
                if p is None or p.returncode: log("tests",f,n,what); continue
                p=sh("go build -o %s/bin ."%t,t+"/mc",120,env)
                if p is None or p.returncode: log("mcbuild",f,n,what); continue
                by="";
                for c in REL[f].split():
                    p=sh("timeout %d %s/bin check %s quick"%(int(BUDGET)*3+60,t,c),t,int(BUDGET)*3+80,env)
                    if p is None or p.returncode==1: by=c; break
                    if p.returncode: by=c+"?rc%d"%p.returncode; break
                log("killed" if by else "survived",f,n,by,what)
            finally:
                shutil.copy(SRC+"/"+f,t+"/repo/"+f)
    finally: shutil.rmtree(t,ignore_errors=True)
ts=[threading.Thread(target=work) for _ in range(PAR)]
[x.start() for x in ts]; [x.join() for x in ts]
shutil.rmtree(SRC,ignore_errors=True)
