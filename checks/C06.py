import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

class Crashes(Check):
    """Keeps what sanitizers, signals and watchdogs report; what the harnesses say about results is other properties' business."""
    part = ""
    def violation(self, key, case, msg):
        if key.startswith("crash:"):
            super().violation("crash:" + self.part, case, msg)
    def add(self, k, v=1):
        super().add(k, v)
        super().add("units_" + self.part, v if k in ("texts", "files", "lookups", "pairs", "runs", "trees", "ops", "versions", "transitions") else 0)

def run():
    c = Crashes("C06")
    c.extra_parts = []
    tier = "thorough" if c.thorough else "quick"
    from C15 import program
    parts = [("parsers", lambda: harness("c06", ["c06.cpp"], "asan", libs=("-lpcre",)), [tier]),
             ("detection", lambda: harness("c10", ["c10.cpp"], "asan", libs=("-lpcre",)), ["quick"]),
             ("rules", lambda: harness("c11", ["c11.cpp"], "asan", libs=("-lpcre",)), ["quick"]),
             ("licences", lambda: harness("c16", ["c16.cpp"], "asan"), ["quick"]),
             ("diffs", lambda: harness("c17", ["c17.cpp"], "asan"), ["quick"]),
             ("walk", lambda: harness("c14", ["c14.cpp"], "asan", libs=("-lpcre", "-lmagic", "-ldl")), ["quick"]),
             ("program", lambda: harness("c15", ["c15.cpp"], "asan", objs=program("asan"), libs=("-lpcre",)), ["quick"]),
             ("orders", lambda: harness("c12", ["c12.cpp"], "asan"), [4, 3])]
    only = os.environ.get("C06_PARTS")
    for name, make, args in parts:
        if only and name not in only.split(","): continue
        t = time.time()
        c.part = name
        exe = make()
        c.run_shards(exe, args, timeout=6000 if c.thorough else 800)
        print("  %s: %d, %.0f s" % (name, c.stats.get("units_" + name, 0), time.time() - t), flush=True)
        if c.viols: break
    s = c.stats
    units = {k[6:]: v for k, v in s.items() if k.startswith("units_")}
    c.finish({"states": sum(units.values()), "transitions": s.get("parses", 0), "traces_validated_against_impl": sum(units.values()), "exhaustive": True,
              "bounds": "under address and undefined-behaviour instrumentation, with a watchdog per case: " + ", ".join("%s %d" % x for x in units.items()) +
                        ". parsers: both modes of every parser on texts in allocations of their exact size, all strings of each language's tokens within %d per alphabet, every byte "
                        "and pair of bytes in context; every accessor on all names of up to %d parts and on names, lines and sniffer answers of every length around the library's "
                        "buffer sizes; the others are the enumerations of C10, C11, C16, C17, C14, C15 and C12 (their quick bounds)" % (3000000 if c.thorough else 60000, 4 if c.thorough else 3)})
main(run) if __name__ == "__main__" else None
