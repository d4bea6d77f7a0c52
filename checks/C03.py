import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C03")
    exe = harness("c03", ["c03.cpp"], "fast")
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=20000 if c.thorough else 800)
    s = c.stats
    LARGE = " In addition, beyond 65536 bytes, lines and columns (140000 bytes; 1.1 million in the thorough tier): every closed string of up to 2 tokens repeated, with its letters and spaces drawn out, and after 35000 lines of code (%d texts)." % s.get("large_texts", 0)
    depths = ", ".join("%s in %d" % (k[6:], v) for k, v in sorted(s.items()) if k.startswith("depth_"))
    c.finish({"states": s.get("parses", 0), "transitions": s.get("reports", 0),
              "traces_validated_against_impl": s.get("parses", 0), "exhaustive": True,
              "unspecified": s.get("unspecified", 0),
              "bounds": "all strings of each language's tokens and of its single characters within 1.5 million per language and alphabet (30 million in the thorough tier), every byte value in 72 contexts, all pairs of bytes (all triples in the thorough tier)" + "; reached lengths (tokens in enumerations): " + depths + ". " + LARGE + " every report of every parse is checked. states = texts, transitions = line reports compared"})
main(run)
