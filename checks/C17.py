import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C17")
    exe = harness("c17", ["c17.cpp"], "fast")
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("versions", 0), "transitions": s.get("pairs", 0),
              "traces_validated_against_impl": s.get("pairs", 0), "deltas_compared": s.get("deltas", 0), "exhaustive": True,
              "bounds": "all ordered pairs of versions made of up to %d lines (or closed sections) over 4 to 6 of them, per family: C, C with "
                        "all line endings, HTML, PHP, JSP, and versions under 10 names of 8 languages; with and without a last line end" % (4 if c.thorough else 3)})
main(run)
