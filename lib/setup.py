"""setup_cmd: checks that the tools the checks need are there; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "ragel", "gperf", "python3", "ruby", "swig") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "tools are there")
sys.exit(1 if missing else 0)
