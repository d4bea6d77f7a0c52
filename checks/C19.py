import sys, os, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rubylib import *

def run():
    c = Check("C19")
    base, so = ruby_so("fast")
    d = tempfile.mkdtemp(prefix="c19.")
    try:
        sh_ = os.path.join(d, "run.sh")
        open(sh_, "w").write("#!/bin/bash\nexec env C19_DIR=%s RUBYOPT= ruby -W0 -I %s %s \"$@\"\n" % (d, so, os.path.join(VERIF, "h", "c19.rb")))
        os.chmod(sh_, 0o755)
        c.run_shards(sh_, ["thorough" if c.thorough else "quick", base, so], nshards=16, timeout=20000 if c.thorough else 800, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    s = c.stats
    c.finish({"evaluations": s.get("evaluations", 0), "states": s.get("evaluations", 0), "transitions": s.get("cases", 0), "traces_validated_against_impl": s.get("evaluations", 0), "facts_compared": s.get("facts", 0),
              "sample_files": s.get("sample_files", 0), "definitions": s.get("definitions", 0), "exhaustive": True,
              "bounds": "%d definitions (the shipped ones and all and/or/not combinations of up to 3 conditions and of facts on facts) over all %s of 16 files; the shipped definitions over %d files made to meet, or nearly meet, each "
                        "condition, alone and with code of 4 languages, and every pair of those that differ in what they meet; shares of code around every limit; two examinations at once; lists of files; pom and project files of up to 2 of 17 elements"
                        % (s.get("definitions", 0), "sequences of up to 4" if c.thorough else "sequences of up to 2 and orders of 3", s.get("sample_files", 0))})
main(run) if __name__ == "__main__" else None
