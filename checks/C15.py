import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def program(variant, name="ohmain", extra=()):
    """ohcount.c with its main function renamed, and the library."""
    base, objs = build(variant, extra)
    o = os.path.join(os.path.dirname(objs[0]), name + ".o")
    cc, cflags, _ = VARIANTS[variant]
    r = sh([cc] + cflags + list(extra) + ["-Dmain=oh_main", "-I" + base + "/src", "-c", base + "/src/ohcount.c", "-o", o])
    if r.returncode:
        raise CheckError("ohcount.c does not compile: " + r.stdout[-2000:])
    return objs + [o]

def run():
    c = Check("C15")
    exe = harness("c15", ["c15.cpp"], "fast", objs=program("fast"), libs=("-lpcre",))
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("runs", 0), "transitions": s.get("transitions", 0), "traces_validated_against_impl": s.get("runs", 0),
              "exhaustive": True,
              "bounds": "all sequences of up to %d of %d pool files under 6 commands, up to 2 under all 13 flag spellings and none; all argument lists of up to %d of %d "
                        "arguments (flags, near-flags, files, trees, links, missing paths); the working directory under every flag; files of 200 000 lines and of lines over 65536 bytes, up to 1000 files, up to 40 languages (alone, in pairs, in "
                        "all prefixes of their list) under each command. states = runs of the program's main "
                        "function, transitions = arguments" % (4 if c.thorough else 3, s.get("pool", 0), 4 if c.thorough else 3, s.get("items", 0))})
main(run) if __name__ == "__main__" else None
