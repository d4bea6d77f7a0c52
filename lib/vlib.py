"""Shared machinery of the checks: building /repo's sources, running harnesses, known findings, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NCPU = max(1, min(8, os.cpu_count() or 1))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# name -> (compiler, compile flags, link flags)
VARIANTS = {
    "fast": ("gcc", ["-O1", "-g0", "-w"], []),
    "asan": ("gcc", ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=undefined",
                     # signed overflow / shifts of the hash functions are checked, function-pointer types are not
                     "-fno-sanitize=alignment"],
             ["-fsanitize=address,undefined"]),
    "pic": ("gcc", ["-O1", "-g0", "-w", "-fPIC"], []),
}
CORE = ["sourcefile", "detector", "licenses", "loc", "log", "diff", "parsed_language", "parser"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "ruby"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def generated_tree():
    """A copy of /repo's src (and ruby) with the gperf and ragel output made by the project's own scripts."""
    key = tree_hash()
    base = os.path.join(BUILD, key)
    with Lock(os.path.join(BUILD, "lock")):
        if not os.path.exists(os.path.join(base, "tree.ok")):
            # drop builds of other trees
            for d in os.listdir(BUILD):
                if d != key and os.path.isdir(os.path.join(BUILD, d)) and len(d) == 16:
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(base, "src"), symlinks=True)
            shutil.copytree(os.path.join(REPO, "ruby"), os.path.join(base, "ruby"), symlinks=True)
            src = os.path.join(base, "src")
            for f in os.listdir(src + "/parsers"):
                if f.endswith(".h"):
                    os.unlink(src + "/parsers/" + f)
            for f in os.listdir(src + "/hash"):
                if f.endswith("_hash.h") or f == "language_hash.c":
                    os.unlink(src + "/hash/" + f)
            r1 = sh(["bash", "./generate_headers"], cwd=src + "/hash")
            r2 = sh(["bash", "./compile"], cwd=src + "/parsers")
            bad = [f for f in os.listdir(src + "/parsers") if f.endswith(".rl")
                   and not (os.path.exists(src + "/parsers/" + f[:-3] + ".h")
                            and os.path.getsize(src + "/parsers/" + f[:-3] + ".h"))]
            if bad or not os.path.exists(src + "/hash/parser_hash.h"):
                raise CheckError("code generation failed: %s\n%s\n%s" % (bad, r1.stdout[-2000:], r2.stdout[-2000:]))
            open(os.path.join(base, "tree.ok"), "w").write("ok")
    return base


def _cc(args):
    r = sh(args)
    return r.returncode, " ".join(args), r.stdout


def build(variant, extra=(), parser=True, only=None):
    """Compiles the library's sources; returns (base dir, list of objects)."""
    base = generated_tree()
    cc, cflags, lflags = VARIANTS[variant]
    tag = variant + ("" if not extra else "-" + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:8])
    out = os.path.join(base, tag)
    src = os.path.join(base, "src")
    names = list(only) if only else list(CORE) + ["hash/language_hash"]
    if not only:
        # any other .c file the tree has grown (a helper moved to a new file)
        for f in sorted(os.listdir(src)):
            if f.endswith(".c") and f[:-2] not in names and f != "ohcount.c":
                names.append(f[:-2])
    if not parser and "parser" in names:
        names.remove("parser")
    with Lock(os.path.join(BUILD, "lock-" + tag)):
        os.makedirs(out + "/hash", exist_ok=True)
        jobs = []
        for n in names:
            o = os.path.join(out, n + ".o")
            if not os.path.exists(o):
                jobs.append([cc] + cflags + list(extra) + ["-I" + src, "-c", os.path.join(src, n + ".c"), "-o", o + ".tmp"])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rc, cmd, o in ex.map(_cc, jobs):
                if rc:
                    raise CheckError("compile failed: %s\n%s" % (cmd, o[-3000:]))
        for j in jobs:
            os.rename(j[-1], j[-1][:-4])
    return base, [os.path.join(out, n + ".o") for n in names]


def harness(name, sources, variant="fast", extra=(), objs=None, cxxflags=(), libs=("-lpcre", "-lmagic"), parser=True):
    """Builds the C++/C harness `sources` (under /verif/h) against the library; returns the executable."""
    if objs is None:
        base, objs = build(variant, extra, parser)
    else:
        base = generated_tree()
    cc, cflags, lflags = VARIANTS[variant]
    exe = os.path.join(base, "bin", name + "-" + variant)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = ["g++", "-std=c++17", "-O2", "-w", "-I" + os.path.join(VERIF, "h"), "-I" + os.path.join(base, "src")]
    if variant == "asan":
        cmd += ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address"]
    cmd += list(cxxflags)
    cmd += [os.path.join(VERIF, "h", s) for s in sources]
    cmd += objs + ["-o", exe] + lflags + list(libs)
    r = sh(cmd)
    if r.returncode:
        raise CheckError("harness build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return exe


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier = TIER
        self.thorough = TIER == "thorough"
        self.stats, self.samples, self.viols, self.known_hit = {}, [], [], {}
        self.assumptions = []
        self.extra = {}
        self.known = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3).strip()

    def add(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, case, msg):
        if key in self.known:
            self.known_hit.setdefault(key, (case, msg))
        else:
            self.viols.append((key, case, msg))

    def parse_output(self, text):
        done = False
        for l in text.splitlines():
            f = l.split("\t")
            if f[0] == "STAT":
                self.add(f[1], int(f[2]))
            elif f[0] == "SAMPLE":
                self.sample(f[1])
            elif f[0] == "VIOL":
                self.violation(f[1], f[2], f[3] if len(f) > 3 else "")
            elif f[0] == "DONE":
                done = True
        return done

    def run_shards(self, exe, args=(), nshards=None, timeout=800, env=None, cwd=None, crash_is_violation=True):
        """Runs the harness once per shard in parallel. A harness keeps its current case in a status file, so that
        a crash (or sanitizer report) or hang can be tied to the input that caused it."""
        n = nshards or NCPU
        tmp = os.path.join(BUILD, "run-%s-%d" % (self.pid, os.getpid()))
        os.makedirs(tmp, exist_ok=True)

        def one(i):
            e = dict(os.environ)
            e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
                      "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
                      "LC_ALL": "C"})
            e.update(env or {})
            st = os.path.join(tmp, "case%d" % i)
            e["H_STATUS"] = st
            cmd = [exe, str(i), str(n)] + [str(a) for a in args]
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
                return i, r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace"), st, cmd, e
            except subprocess.TimeoutExpired as x:
                return i, "timeout", (x.stdout or b"").decode("utf8", "replace"), "", st, cmd, e

        errors = []
        with cf.ThreadPoolExecutor(min(n, NCPU)) as ex:
            for i, rc, out, err, st, cmd, e in ex.map(one, range(n)):
                done = self.parse_output(out)
                if rc == 0 and done:
                    continue
                case = ""
                if os.path.exists(st):
                    case = open(st, "rb").read().split(b"\0")[0].decode("utf8", "replace")
                if rc == "timeout":
                    errors.append("shard %d timed out (case %s)" % (i, case))
                    continue
                if crash_is_violation and case:
                    # replay the one case before reporting it
                    try:
                        r2 = subprocess.run([exe, "replay", case] + [str(a) for a in args], stdout=subprocess.PIPE,
                                            stderr=subprocess.PIPE, timeout=60, env=dict(e, H_STATUS=st + "r"), cwd=cwd)
                        rc2, err2 = r2.returncode, r2.stderr.decode("utf8", "replace")
                    except subprocess.TimeoutExpired:
                        rc2, err2 = "hang", ""
                    if rc2 != 0:
                        m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|ERROR: .*|HANG.*)", err2 or err)
                        what = m.group(1)[:200] if m else ("hang" if rc2 == "hang" else "exit %s" % rc2)
                        fr = re.findall(r"#\d+ 0x\w+ in (\w+) ", err2 or err)
                        fr = [x for x in fr if not x.startswith("__")][:3]
                        self.violation("crash:" + case.split("|")[0], case, what + " in " + "<-".join(fr))
                        continue
                    errors.append("shard %d ended with %s on case %s, which does not fail alone: %s" % (i, rc, case, err[-600:]))
                else:
                    errors.append("shard %d ended with %s: %s %s" % (i, rc, out[-300:], err[-1500:]))
        shutil.rmtree(tmp, ignore_errors=True)
        if errors and not self.viols:
            raise CheckError("; ".join(errors)[:4000])

    def finish(self, coverage):
        cov = dict(coverage)
        cov["samples"] = self.samples[:12] or ["none"]
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.viols)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, v in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        for k in sorted(set(self.known) - set(self.known_hit)):
            print("note: known finding %s did not show on this tree" % k)
        if self.viols:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".txt")
            # shortest case first
            self.viols.sort(key=lambda v: (len(v[1]), v[1]))
            with open(path, "w") as f:
                for k, c, m in self.viols[:200]:
                    f.write("key=%s\ncase=%s\n%s\n\n" % (k, c, m))
            for k, c, m in self.viols[:5]:
                print("  [%s] case %s: %s" % (k, c[:300], m[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.exit(1)
        print("%s held: %s (%.1f s)" % (self.pid, ", ".join("%s=%s" % (a, b) for a, b in cov.items()
                                                          if isinstance(b, (int, str)) and len(str(b)) < 40), wall))
        sys.exit(0)


def main(fn):
    try:
        fn()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(3)
