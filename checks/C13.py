import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from C15 import program

WRAP = "fopen fopen64 fread fseek ftell fseeko ftello fclose fgets fgetc ferror fputs opendir readdir readdir64 closedir lstat stat popen pclose mkstemp mkstemp64 write close unlink remove exit".split()

def run():
    c = Check("C13")
    # without fortification, so that every call goes by its own name
    exe = harness("c13", ["c13.cpp"], "asan", objs=program("asan", "ohmain13", ("-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0")), libs=["-Wl,--wrap=" + w for w in WRAP] + ["-lpcre"])
    c.run_shards(exe, ["thorough" if c.thorough else "quick"], timeout=20000 if c.thorough else 800)
    s = c.stats
    c.finish({"evaluations": s.get("runs", 0), "states": s.get("runs", 0), "transitions": s.get("transitions", 0), "traces_validated_against_impl": s.get("runs", 0),
              "runs_with_faults": s.get("faulty", 0), "scenarios": s.get("scenarios", 0), "exhaustive": True,
              "bounds": "every single failing call and every pair of them%s in %d scenarios: six reports of the program on all pairs of 11 files and on trees; all sequences of up to "
                        "%d of 7 queries on each file; all pairs of files diffed; large diffs through temporary files and the diff program; every function, file and all "
                        "functions failing for good; 100 failing files with 40 descriptors. states = runs, transitions = intercepted calls" %
                        (" (triples in the small ones)", s.get("scenarios", 0), 4 if c.thorough else 3)})
main(run) if __name__ == "__main__" else None
