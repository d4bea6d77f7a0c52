import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C11")
    exe = harness("c11", ["c11.cpp"], "fast", libs=("-lpcre",))
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("files", 0), "transitions": s.get("language", 0), "traces_validated_against_impl": s.get("files", 0),
              "unspecified": s.get("unspecified", 0), "without_language": s.get("none", 0), "rules": s.get("rules", 0), "exhaustive": True,
              "bounds": "for each of 20 rules all strings of 9 to 36 markers, near-markers, blanks and line ends up to a length of 3 to 6; strings of up to %d of them in "
                        "every extension of the rule, behind and before other text, with CRLF and CR, with all pairs (and, for short strings, all sets) of companion names; "
                        "every marker at every column up to 130 and around byte 10000; every C++ header and extension. states = files, transitions = files with a "
                        "language" % (3 if c.thorough else 2)})
main(run)
