"""Builds the Ruby interface (SWIG wrapper and library, under AddressSanitizer) from the current tree."""
import json, os, subprocess
from vlib import *

def ruby_so(variant="asan"):
    base, objs = build(variant, extra=("-fPIC",))
    out = os.path.join(base, "rb-" + variant)
    cfg = sh(["ruby", "-rrbconfig", "-e", "puts RbConfig::CONFIG['rubyhdrdir'], RbConfig::CONFIG['rubyarchhdrdir']"]).stdout.split()
    cc, cflags, lflags = VARIANTS[variant]
    with Lock(os.path.join(BUILD, "lock-rb-" + variant)):
        if not os.path.exists(out + "/ohcount.so"):
            os.makedirs(out, exist_ok=True)
            cmds = [["swig", "-ruby", "-o", out + "/ohcount_wrap.c", "ruby/ohcount.i"],
                    [cc] + cflags + ["-fPIC", "-Iruby"] + ["-I" + c for c in cfg] + ["-c", out + "/ohcount_wrap.c", "-o", out + "/ohcount_wrap.o"],
                    [cc, "-shared", "-o", out + "/tmp.so", out + "/ohcount_wrap.o"] + objs + lflags + ["-lpcre", "-lmagic"]]
            for c in cmds:
                r = sh(c, cwd=base)
                if r.returncode:
                    raise CheckError("building the Ruby interface failed: %s\n%s" % (" ".join(c), r.stdout[-3000:]))
            os.rename(out + "/tmp.so", out + "/ohcount.so")
    return base, out

def preload():
    return sh(["gcc", "-print-file-name=libasan.so"]).stdout.strip()
