#!/usr/bin/env python3
"""seed.py ID: checks a planted bug the way vcheck does (applies it to /repo, builds, tests, demo; then the demo on the clean tree).
With --checks also runs the property's check on a scratch copy."""
import sys, os, subprocess, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def demo(d):
    r=sh("cd /repo && bash %s/demo.sh"%d); return r.returncode, r.stdout[-400:]
for i in [a for a in sys.argv[1:] if a[0]!='-']:
    d=os.path.join(V,"seeded",i); p=d+"/patch.diff"
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    a=sh("git -C /repo apply "+p)
    if a.returncode: print(i,"DOES NOT APPLY",a.stdout); continue
    try:
        b=sh("bash /opt/vp/build.sh")
        if b.returncode: print(i,"DOES NOT BUILD",b.stdout[-1500:]); continue
        t=sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        bad=[l for l in t.stdout.splitlines() if l.startswith("FAIL") and "test_golang" not in l]
        md=demo(d)
    finally:
        sh("git -C /repo checkout -q -- .")
        sh("bash /opt/vp/build.sh")
    cd=demo(d)
    ok=not bad and md[0]!=0 and cd[0]==0
    print(i,"OK" if ok else "BAD","tests-failed",bad[:3],"demo patched",md if not ok else md[0],"clean",cd if not ok else cd[0])
    if '--checks' in sys.argv:
        pid=json.load(open(d+"/meta.json"))["property"]
        print(sh("bash %s/tools/onmut.sh %s %s"%(V,p,pid)).stdout)
