import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run():
    c = Check("C08")
    exe = harness("c08", ["c08.cpp"], "asan", objs=build("asan", only=["loc"])[1], libs=())
    args = (4, 7, 60000) if c.thorough else (3, 5, 20000)
    c.run_shards(exe, args)
    s = c.stats
    c.finish({"states": s.get("states", 0), "transitions": s.get("transitions", 0),
              "traces_validated_against_impl": s.get("transitions", 0), "list_comparisons": s.get("queries", 0),
              "exhaustive": True,
              "bounds": "all operation sequences up to length %d over two lists, 3 languages, %s; breadth-first over "
                        "distinct reference states to depth %d with a reduced value set; lists of 1 to 150 languages filled in 3 orders, summed, merged and compacted with 4 patterns of empty entries" % (args[0], "6/11 value vectors", args[1])})
main(run)
