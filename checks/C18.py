import sys, os, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rubylib import *

def run():
    c = Check("C18")
    exe = harness("c18", ["c18.cpp"], "fast")
    base, so = ruby_so()
    d = tempfile.mkdtemp(prefix="c18.")
    try:
        for f, t in [("two.c", "/* MIT License */\nint two;\n\n"), ("empty", ""), ("T/a.c", "int a;\n// c\n"), ("T/w.html", "<html>\n<style type='text/css'>\n/* c */\np {}\n</style>\n</html>\n"),
                     ("T/n.xyz", "text\n"), ("T/sub/b.rb", "# b\nputs 1\n"), ("T/sub/script", "#!/usr/bin/perl\nmy $x;\n"), ("T/.hid/x.c", "int x;\n")]:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").write(t)
        sh_ = os.path.join(d, "run.sh")
        open(sh_, "w").write("#!/bin/bash\nexec env LD_PRELOAD=%s RUBYOPT= ruby -I %s %s \"$@\"\n" % (preload(), so, os.path.join(VERIF, "h", "c18.rb")))
        os.chmod(sh_, 0o755)
        c.run_shards(sh_, ["thorough" if c.thorough else "quick", exe, d, base], nshards=16, timeout=20000 if c.thorough else 800, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    s = c.stats
    c.finish({"evaluations": s.get("cases", 0), "states": s.get("cases", 0), "transitions": s.get("steps", 0), "traces_validated_against_impl": s.get("cases", 0), "cases_with_garbage_collection": s.get("with_gc", 0), "exhaustive": True,
              "bounds": "23 files by constructor options (contents, location, companions, none), all sequences of up to %d of 15 queries and setters, those of up to 2 also with a garbage collection after "
                        "every step, values held while their file or list is collected; all sequences of up to %d of 9 list operations after 7 constructions; every language name. The strings handed over are changed afterwards" % ((4, 4) if c.thorough else (3, 3))})
main(run) if __name__ == "__main__" else None
