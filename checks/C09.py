import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C09")
    base, objs = build("fast")
    r = sh(["gcc", "-w", "-O1", "-x", "c", "-", "-c", "-o", base + "/opts.o", "-I" + base + "/src"],
           input='#include <string.h>\n#include "%s/src/hash/option_hash.h"\n' % base)
    if r.returncode:
        raise CheckError(r.stdout)
    exe = harness("c09", ["c09.cpp"], "fast", objs=objs + [base + "/opts.o"], libs=("-rdynamic", "-lpcre", "-lmagic", "-ldl"))
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("keys", 0), "transitions": s.get("lookups", 0), "traces_validated_against_impl": s.get("lookups", 0), "exhaustive": True,
              "bounds": "nine lookups (extension, file name, rule, C++ header, parser, option, language, set_language, binary name): all strings of up to %d characters "
                        "over 70 characters, all pairs of bytes, all strings at edit distance 1 of any key of any table over all bytes, at distance 2 over a "
                        "reduced alphabet, all changes of case. states = keys, transitions = lookups" % (4 if c.thorough else 3)})
main(run)
