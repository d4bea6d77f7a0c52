import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C02")
    exe = harness("c02", ["c02.cpp"], "fast")
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=20000 if c.thorough else 800)
    s = c.stats
    LARGE = " In addition, beyond 65536 bytes, lines and columns (140000 bytes; 1.1 million in the thorough tier): every closed string of up to 3 tokens repeated, with its letters and spaces drawn out, and after 35000 lines of code (%d texts)." % s.get("large_texts", 0)
    depths = ", ".join("%s in %d" % (k[6:], v) for k, v in sorted(s.items()) if k.startswith("depth_"))
    c.finish({"states": s.get("texts", 0), "transitions": s.get("lines_compared", 0),
              "traces_validated_against_impl": s.get("texts", 0) - s.get("unspecified", 0), "exhaustive": True,
              "unspecified": s.get("unspecified", 0), "formats": s.get("formats", 0),
              "bounds": "for each of the 12 hosting formats and each embedded section kind: all strings of the section's delimiters and the embedded language's comment and string delimiters; of all delimiters and the host's comment and string delimiters; of the delimiters and every line ending; and of all section kinds together, as long as their number stays within 4 million per alphabet (200 million in the thorough tier). Reached lengths (tokens in enumerations): " + depths + ". every way to write style and script tags with up to 3 of 13 attributes, quotes and line ends, in 3 contexts with 5 bodies, 6 closing tags and 4 endings (" + str(s.get("tag_texts", 0)) + " texts)." + LARGE + " unspecified = texts with unclosed constructs or a closing delimiter inside an embedded string or block comment. states = documents, transitions = line reports compared"})
main(run)
