import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C12")
    exe = harness("c12", ["c12.cpp"], "asan")
    args = (5, 4) if c.thorough else (4, 3)
    c.run_shards(exe, args, timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("sequences", 0) + s.get("interleavings", 0) + s.get("texts", 0), "transitions": s.get("transitions", 0),
              "traces_validated_against_impl": s.get("sequences", 0) + s.get("interleavings", 0) + s.get("texts", 0),
              "configurations": s.get("configurations", 0), "texts": s.get("texts", 0), "unspecified": s.get("unspecified", 0), "exhaustive": True,
              "bounds": "all sequences of %d of the 9 queries on each of %d files (13 contents x storage on disk, under another path, in memory, "
                        "in memory over a different file); all interleavings of %d of 14 queries and diffs on 8 pairs of files; records, counts, size and contents of all strings of every language's tokens within %s per language, in memory and (one in 16) on disk; "
                        "files of every size up to %s and around the powers of two up to %s. unspecified = texts with unclosed constructs" % (args[0], s.get("configurations", 0), args[1],
                        "400 000" if c.thorough else "20 000", "9000" if c.thorough else "1500", "16 MB" if c.thorough else "1 MB")})
main(run)
