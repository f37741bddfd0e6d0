#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the bug list in a python file: mkseed.py BUGS.py [id...]
Each bug is confirmed in a scratch copy: builds, existing tests pass, demo passes without and fails with it."""
import os, sys, json, shutil, subprocess, tempfile
ENV=dict(os.environ,HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build")
DEMO='''#!/bin/bash
# exit 0: the property holds for the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 1
trap 'rm -rf -- "$T"' EXIT
export TMPDIR=$T
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$D/demo_test.go.txt\\"}}" > "$T/overlay.json"
go test FLAGS-vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run 'TestZZDemo' .
'''
HEAD='''package svg_test

import (
%s
)

'''
LIB='''
func must(t *testing.T, doc string) *svg.Svg {
	s, err := svg.Parse(strings.NewReader(doc), svg.StrictErrorMode)
	if err != nil {
		t.Fatal(err)
	}
	return s
}
'''
def sh(cmd,cwd):
    return subprocess.run(cmd,cwd=cwd,env=ENV,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    want=sys.argv[2:]
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        out="/verif/seeded/"+b["id"]
        if not want and os.path.exists(out): continue
        t=tempfile.mkdtemp(prefix="seed")
        try:
            shutil.copytree("/repo",t+"/r",symlinks=True)
            R=t+"/r"
            d=t+"/d"; os.mkdir(d)
            imp=["strings","testing"]+b.get("imports",[])
            code=b["demo"]
            lib=LIB if "must(t" in code else ""
            if not lib and "strings." not in code: imp.remove("strings")
            std=sorted(i for i in imp if "." not in i.split("/")[0]); ext=[i for i in imp if "." in i.split("/")[0]]
            lines=['\t"%s"'%i for i in std]+['\tsvg "github.com/lafriks/go-svg"']*(1 if "svg." in code+lib else 0)+['\t'+(i if '"' in i else '"%s"'%i) for i in ext]
            open(d+"/demo_test.go.txt","w").write(HEAD%"\n".join(lines)+code.strip()+"\n"+lib)
            open(d+"/demo.sh","w").write(DEMO.replace("FLAGS",b.get("flags",""))); os.chmod(d+"/demo.sh",0o755)
            p=sh("bash %s/demo.sh"%d,R)
            if p.returncode: print(b["id"],"DEMO FAILS CLEAN",p.stdout[-1500:]); continue
            bad=False
            for f,o,n in b["edits"]:
                s=open(R+"/"+f).read()
                if s.count(o)!=1: print(b["id"],"EDIT",f,s.count(o),repr(o)); bad=True; break
                open(R+"/"+f,"w").write(s.replace(o,n))
            if bad: continue
            p=sh("gofmt -l . ; go build ./... && go vet . ./renderer/... >/dev/null && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'",R)
            if "FAIL" in p.stdout or "ok " not in p.stdout: print(b["id"],"BUILD/TEST",p.stdout[-1500:]); continue
            if ".go\n" in p.stdout: print(b["id"],"gofmt",p.stdout[:200])
            p=sh("bash %s/demo.sh"%d,R)
            if p.returncode==0: print(b["id"],"DEMO PASSES WITH BUG"); continue
            if "build failed" in p.stdout: print(b["id"],"DEMO BUILD",p.stdout[-800:]); continue
            diff=subprocess.run("git diff",cwd=R,shell=True,stdout=subprocess.PIPE,text=True).stdout
            os.makedirs(out,exist_ok=True)
            open(out+"/patch.diff","w").write(diff)
            shutil.copy(d+"/demo_test.go.txt",out); shutil.copy(d+"/demo.sh",out)
            json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["what"]),open(out+"/meta.json","w"),indent=1)
            print(b["id"],"kept")
        finally:
            shutil.rmtree(t)
main()
