import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C10")
    exe = harness("c10", ["c10.cpp"], "fast", libs=("-lpcre",))
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=6000 if c.thorough else 800)
    s = c.stats
    c.finish({"states": s.get("files", 0), "transitions": s.get("transitions", 0), "traces_validated_against_impl": s.get("files", 0),
              "unspecified": s.get("unspecified", 0), "exhaustive": True,
              "bounds": "%d names x 46 mode lines x 19 places of them x 4 answers of the sniffer; names x 32 answers x 5 contents x content in memory, on disk or at another "
                        "path; unreadable files; every key of the extension, language and file tables in six spellings as extension, mode, answer and name; answers and mode "
                        "lines of up to %d tokens. states = files, transitions = questions to the detector and the sniffer" % (s.get("names", 0), 7 if c.thorough else 5)})
main(run)
