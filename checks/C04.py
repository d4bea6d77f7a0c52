import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C04")
    exe = harness("c04", ["c04.cpp"], "fast")
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=20000 if c.thorough else 800)
    s = c.stats
    LARGE = " In addition, beyond 65536 bytes, lines and columns (140000 bytes; 1.1 million in the thorough tier): every closed string of up to 2 tokens repeated, with its letters and spaces drawn out, and after 35000 lines of code (%d texts)." % s.get("large_texts", 0)
    depths = ", ".join("%s in %d" % (k[6:], v) for k, v in sorted(s.items()) if k.startswith("depth_"))
    c.finish({"states": s.get("parses", 0), "transitions": s.get("reports", 0),
              "traces_validated_against_impl": s.get("parses", 0), "exhaustive": True,
              "unspecified": s.get("unspecified", 0),
              "bounds": "all strings of each language's tokens, of its single characters, and of its tokens with all line endings, white space, NUL and digits, within %s per "
                        "language and alphabet; every byte value in 72 contexts, all pairs of bytes; reached lengths (tokens in enumerations): %s. Order, range and names are checked on "
                        "all of them, comments, strings and white space on those in which all comments and strings are closed. states = texts, transitions = entities reported"
                        % ("30 million" if c.thorough else "1.5 million", depths) + "." + LARGE})
main(run)
