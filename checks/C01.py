import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C01")
    exe = harness("c01", ["c01.cpp"], "fast")
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=20000 if c.thorough else 800)
    s = c.stats
    LARGE = " In addition, beyond 65536 bytes, lines and columns (140000 bytes; 1.1 million in the thorough tier): every closed string of up to 2 tokens repeated, with its letters and spaces drawn out, and after 35000 lines of code (%d texts)." % s.get("large_texts", 0)
    depths = ", ".join("%s in %d" % (k[6:], v) for k, v in sorted(s.items()) if k.startswith("depth_"))
    c.finish({"states": s.get("texts", 0), "transitions": s.get("lines_compared", 0),
              "traces_validated_against_impl": s.get("texts", 0) - s.get("unspecified", 0), "exhaustive": True,
              "unspecified": s.get("unspecified", 0),
              "bounds": "all strings of each language's tokens (delimiters, escapes, letter, space, line end) and of its single characters, as long as their number stays within 4 million per language and alphabet (60 million in the thorough tier), plus those with all line endings within a quarter of that" + "; reached lengths (tokens in enumerations): " + depths + ". " + LARGE + " unspecified = texts with an unclosed comment or string, outside the property's premise. states = texts, transitions = line reports compared"})
main(run)
