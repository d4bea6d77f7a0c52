import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C07")
    exe = harness("c07", ["c07.cpp"], "asan", objs=build("asan", only=["diff"])[1], libs=())
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=3000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("pairs", 0), "transitions": s.get("differing", 0),
              "traces_validated_against_impl": s.get("pairs", 0), "exhaustive": True,
              "bounds": "all pairs of texts of up to 6 lines over 3 line texts, 8 over 2, 5 over 4 (one more each in the thorough tier); "
                        "all pairs of short lines; all one-block edits of files of 12, 25 and 40 lines; all small tails of texts over 100000 bytes. "
                        "states = pairs compared, transitions = pairs that differ"})
main(run)
