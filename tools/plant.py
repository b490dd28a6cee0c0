#!/usr/bin/env python3
"""plant.py SPEC.py...: confirm planted bugs in a scratch copy of /repo and store them in /verif/seeded/<id>/.
SPEC defines id, prop, edits=[(file,old,new)], demo (C source), needs, breaks."""
import json,os,shutil,subprocess,sys,runpy
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC="/tmp/sc"
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=$(find "$PWD/c3" -name '*.h' -printf '-I%h\\n' | sort -u)
gcc -std=gnu99 -w $inc "$d/demo.c" -o "$t/demo" -L"$PWD/_build/c3" -lc3 -llapack -lblas -lm -Wl,-rpath,"$PWD/_build/c3" -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$t" && timeout 120 ./demo
'''
def setup():
    os.makedirs(SC,exist_ok=True)
    sh(f"rm -rf {SC}/repo; cp -a /repo {SC}/repo; rm -rf {SC}/repo/_build")
    for f in("build.sh","test.sh"):
        s=open("/opt/vp/"+f).read().replace("/repo",SC+"/repo").replace("/opt/vp/build.sh",SC+"/build.sh"); open(f"{SC}/{f}","w").write(s)
    print(sh(f"bash {SC}/build.sh").returncode)
def main():
    if not os.path.exists(SC+"/repo") or "--fresh" in sys.argv: setup()
    R=SC+"/repo"
    if sh(f"git -C {R} rev-parse HEAD").stdout!=sh("git -C /repo rev-parse HEAD").stdout: setup()
    for spec in sys.argv[1:]:
        if spec.startswith("--"): continue
        s=runpy.run_path(spec); i=s["id"]; D=f"{H}/seeded/{i}"
        sh(f"git -C {R} checkout -- .")
        shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
        open(D+"/demo.c","w").write(s["demo"]); open(D+"/demo.sh","w").write(DEMO); os.chmod(D+"/demo.sh",0o755)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(D+"/meta.json","w"),indent=1)
        sh(f"bash {SC}/build.sh")
        r0=sh(f"bash {D}/demo.sh",cwd=R)
        ok=r0.returncode==0
        if not ok: print(i,"DEMO FAILS ON CLEAN TREE",r0.stdout[-800:]); shutil.rmtree(D); continue
        for e in s["edits"]:
            f,o,n=e[:3]; t=open(f"{R}/{f}").read()
            if len(e)>3:   # nth occurrence
                parts=t.split(o); k=e[3]
                open(f"{R}/{f}","w").write(o.join(parts[:k+1])+n+o.join(parts[k+1:])); continue
            if t.count(o)!=1: print(i,"edit matches",t.count(o),repr(o)); ok=False; break
            open(f"{R}/{f}","w").write(t.replace(o,n))
        if not ok: sh(f"git -C {R} checkout -- ."); shutil.rmtree(D); continue
        open(D+"/patch.diff","w").write(sh(f"git -C {R} diff").stdout)
        b=sh(f"bash {SC}/build.sh")
        if b.returncode: print(i,"BUILD FAILS",b.stdout[-1500:]); ok=False
        if ok:
            r1=sh(f"bash {D}/demo.sh",cwd=R)
            if r1.returncode==0: print(i,"DEMO PASSES WITH BUG",r1.stdout[-300:]); ok=False
        if ok:
            sh(f"bash {SC}/test.sh {SC}/t.json")
            st=json.load(open("/opt/vp/BASELINE.json"))["stable"]; p=json.load(open(SC+"/t.json"))["passed"]
            miss=sorted(set(st)-set(p))
            if miss: print(i,"TESTS FAIL",miss[:5]); ok=False
        sh(f"git -C {R} checkout -- .")
        print(i,"OK" if ok else "REJECTED")
        if not ok: shutil.rmtree(D)
main()
