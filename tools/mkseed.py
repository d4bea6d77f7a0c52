"""mkseed(id, property, [(file, old, new)], needs, breaks, demo): writes /verif/seeded/<id>."""
import os, subprocess, json, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE='''#!/bin/bash
# exit 0: the property holds in this case; nonzero: it is broken
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
OBJS=$(ls /repo/_build/out/src/*.o /repo/_build/out/src/hash/*.o | grep -v '/ohcount.o$')
OH=/repo/_build/out/bin/ohcount
driver() { gcc -w -g -I/repo/_build/tree/src -o "$W/d" "$W/d.c" $OBJS -lpcre -lmagic || exit 90; }
cd "$W"
'''
PARSE='''cat > d.c <<'EOF'
#include <stdio.h>
#include <string.h>
#include "sourcefile.h"
#include "parser.h"
static void cb(const char *l, const char *e, int s, int t, void *u) { printf("%s %s %d %d\\n", l, e, s, t); }
int main(int c, char **v) {
  static char b[65536]; int n = fread(b, 1, sizeof b - 1, stdin);
  SourceFile *sf = ohcount_sourcefile_new("x"); ohcount_sourcefile_set_contents(sf, b);
  char *p = malloc(n + 1); memcpy(p, b, n); p[n] = 0; sf->contents = p; sf->size = n;
  sf->language = v[1]; sf->language_detected = 1;
  ohcount_parse(sf, c < 3, cb, 0);
  return 0;
}
EOF
driver
'''
def mkseed(id,prop,edits,needs,breaks,demo,parse=False):
    d=os.path.join(V,"seeded",id); os.makedirs(d,exist_ok=True)
    R="/repo"
    assert not subprocess.run("git -C /repo status --porcelain",shell=True,stdout=subprocess.PIPE).stdout.strip(),"repo not clean"
    try:
        for f,a,b in edits:
            p=os.path.join(R,f); s=open(p,encoding="latin-1").read(); assert s.count(a)==1,(f,a,s.count(a))
            open(p,"w",encoding="latin-1").write(s.replace(a,b))
        diff=subprocess.run("git -C /repo diff",shell=True,stdout=subprocess.PIPE).stdout
        open(d+"/patch.diff","wb").write(diff)
    finally:
        subprocess.run("git -C /repo checkout -q -- .",shell=True)
    open(d+"/demo.sh","w").write(PRE+(PARSE if parse else "")+demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
