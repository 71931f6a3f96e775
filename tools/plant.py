#!/usr/bin/env python3
"""Makes seeded/<id>/ from a list of edits and confirms each one in a scratch
copy of /repo: it builds, passes the existing tests, and its demonstration
passes without and fails with the change.
usage: plant.py SPEC.py [id...]     (SPEC.py defines BUGS)
"""
import json,os,subprocess,sys,shutil,tempfile,runpy
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO=r'''#!/bin/sh
# Run in the repository: passes on the unchanged tree, fails with the change.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" >"$t/o.json"
GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local \
	go test -vet=off FLAGS -c -o "$t/demo" -overlay "$t/o.json" ./zzdemo && "$t/demo" -test.timeout 100s
'''
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def main():
    bugs=runpy.run_path(sys.argv[1])["BUGS"]
    only=sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only: continue
        t=tempfile.mkdtemp(prefix="plant-"); r=t+"/repo"
        try:
            sh(f"cp -a {os.environ.get('VERIF_REPO','/repo')} {r}",None); sh("git checkout -q -- . && git clean -fdq",r)
            for f,old,new in b["edits"]:
                p=os.path.join(r,f); s=open(p).read()
                if s.count(old)<1: print(b["id"],"NO MATCH",f,old[:60]); break
                n=b.get("nth",{}).get(f)
                s=s.replace(old,new) if b.get("all") else s.replace(old,new,1)
                open(p,"w").write(s)
            else:
                d=os.path.join(root,"seeded",b["id"]); os.makedirs(d,exist_ok=True)
                fm="".join(x+"\n" for x in sh("gofmt -l graphemes words sentences phrases internal",r).stdout.split() if "fuzz_test" not in x and "triegen" not in x)
                open(d+"/patch.diff","w").write(sh("git diff",r).stdout)
                imps="\n".join(f'\t"{i}"' for i in b["imports"])
                open(d+"/demo_test.go","w").write("package zzdemo\n\nimport (\n"+imps+"\n)\n\n"+b["demo"].strip()+"\n")
                sh(f"gofmt -w {d}/demo_test.go",r)
                open(d+"/demo.sh","w").write(DEMO.replace("FLAGS ",b.get("flags","")+" " if b.get("flags") else "")); os.chmod(d+"/demo.sh",0o755)
                json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
                bld=sh("go build ./... && go vet ./graphemes ./words ./sentences ./phrases ./internal/iterators/...",r)
                tst=sh("go test ./graphemes ./words ./sentences ./phrases ./internal/iterators/... 2>&1 | grep -v '^ok' | head -20",r)
                sh("git stash -q",r); clean=sh(d+"/demo.sh",r); sh("git stash pop -q",r); dirty=sh(d+"/demo.sh",r)
                ok=bld.returncode==0 and not [l for l in tst.stdout.splitlines() if 'FAIL' in l] and clean.returncode==0 and dirty.returncode!=0 and not fm
                print(b["id"],b["property"],"GOOD" if ok else "BAD","build",bld.returncode,bld.stderr[-300:],"tests"," | ".join(l for l in tst.stdout[:900].splitlines() if 'no test files' not in l),"clean",clean.returncode,(clean.stdout+clean.stderr)[-400:] if clean.returncode else "","dirty",dirty.returncode,"fmt",fm,flush=True)
                if not ok: shutil.rmtree(d)
        finally: shutil.rmtree(t)
main()
