import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C14")
    exe = harness("c14", ["c14.cpp"], "fast", libs=("-lpcre", "-lmagic", "-ldl"))
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("trees", 0), "transitions": s.get("listed", 0), "traces_validated_against_impl": s.get("walks", 0),
              "files_reported": s.get("files", 0), "exhaustive": True,
              "bounds": "real trees in a scratch directory: all trees of up to 2 entries (9 types of entry, 8 kinds of name) in every listing order, with 8 ways to "
                        "name the root; all trees of 3 entries (9 types, plain and hidden names) in %s; all shapes of files and (hidden) directories of up to %d entries; "
                        "chains of up to 60 directories with paths around the longest one; directories of 10, 100 and 1000 entries. states = (tree, order, naming) "
                        "triples, transitions = directory entries handed to the walk" % ("every order" if c.thorough else "3 orders", 6 if c.thorough else 5)})
main(run)
