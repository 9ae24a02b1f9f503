"""Shared machinery of the checks: builds of /repo under instrumentation, running programs,
recording evidence and reporting violations."""
import os, sys, json, time, glob, hashlib, random, subprocess, fcntl, shutil, tempfile, struct, signal, math
import concurrent.futures as cf
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = min(8, os.cpu_count() or 1)

SAN = ("-fsanitize=address,undefined "
       "-fno-sanitize=signed-integer-overflow,shift-base,pointer-overflow,function,vptr "
       "-fno-sanitize-recover=undefined -fno-omit-frame-pointer -g1 -O1")
# cfg -> (C compiler, C++ compiler, extra flags, make arguments)
CONFIGS = {
    "asan":    ("clang", "clang++", SAN, ["debug=1"]),
    "tsan":    ("clang", "clang++", "-fsanitize=thread -fno-omit-frame-pointer -g1 -O1", ["debug=1"]),
    "tsanopt": ("clang", "clang++", "-fsanitize=thread -fno-omit-frame-pointer -g1 -O1", ["debug=0"]),
    "plain":   ("gcc", "g++", "-O1 -g1", ["debug=1"]),
    "rel":     ("gcc", "g++", "-g1", ["debug=0"]),
    "mad":     ("gcc", "g++", "-O1 -g1", ["debug=1", "mad_gc=1"]),
    "madrel":  ("gcc", "g++", "-g1", ["debug=0", "mad_gc=1"]),
    "madasan": ("clang", "clang++", SAN, ["debug=1", "mad_gc=1"]),
    "fault":   ("clang", "clang++", SAN + " -include " + os.path.join(VERIF, "lib", "failinj.h") + " -Wl,--wrap=kos_seq_fail -Wno-unused-command-line-argument", ["debug=1", "seqfail=1"]),
    "fuzz":    ("clang", "clang++", SAN + " -fsanitize=fuzzer-no-link", ["debug=1"]),
    "sched":   ("clang", "clang++", "-O1 -g1", ["debug=1"]),
    "schedmad": ("clang", "clang++", "-O1 -g1", ["debug=1", "mad_gc=1"]),
    "seqfail": ("clang", "clang++", SAN, ["debug=1", "seqfail=1"]),
}

WRAP = " ".join("-Wl,--wrap=" + f for f in ("pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_mutex_unlock",
        "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "sched_yield", "nanosleep"))

def sched_link(cfg):
    """Extra link arguments of the builds under the controlled scheduler."""
    if not cfg.startswith("sched"):
        return ""
    src = os.path.join(VERIF, "native", "vsched.c")
    obj = os.path.join(BUILD, "vsched-%s.o" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(obj):
        tmp = obj + ".%d" % os.getpid()
        subprocess.run(["clang", "-O2", "-g1", "-c", src, "-o", tmp], check=True)
        os.rename(tmp, obj)
    return obj + " " + WRAP

REMAP = {}      # lets one check rerun the workload of another under a different build

class CheckError(Exception):
    pass

def source_hash():
    h = hashlib.sha256()
    for d in ("inc", "core", "modules", "interpreter", "build"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if os.path.isfile(p):
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(REPO, "Makefile"), "rb") as fh:
        h.update(fh.read())
    for f in ("vcc", "vcxx"):
        with open(os.path.join(VERIF, "lib", f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()

class Build:
    def __init__(self, cfg, out):
        self.cfg = cfg
        self.out = out
        self.kos = os.path.join(out, "interpreter", "kos")

def build(cfg):
    """Builds /repo's working tree in configuration cfg (cached by content), with its own makefiles."""
    cfg = REMAP.get(cfg, cfg)
    cc, cxx, extra, margs = CONFIGS[cfg]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, cfg)
    key = hashlib.sha256((source_hash() + repr(CONFIGS[cfg]) + sched_link(cfg)).encode()).hexdigest()
    with open(os.path.join(BUILD, cfg + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, cfg + ".stamp")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(os.path.join(out, "interpreter", "kos")):
            return Build(cfg, out)
        shutil.rmtree(out, ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        env = dict(os.environ, VCC_REAL=cc, VCC_REALXX=cxx, VCC_EXTRA=extra, VCC_SCHED=sched_link(cfg),
                   ASAN_OPTIONS="detect_leaks=0")
        for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CC", "CXX", "MAKEFLAGS", "MFLAGS"):
            env.pop(v, None)
        cmd = ["make", "-j%d" % NPROC, "default", "CC=" + os.path.join(VERIF, "lib", "vcc"),
               "CXX=" + os.path.join(VERIF, "lib", "vcxx"),
               "out_dir_base_rel=" + os.path.relpath(out, REPO)] + margs
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(os.path.join(out, "interpreter", "kos")):
            sys.stderr.write(p.stdout.decode("utf8", "replace")[-4000:])
            raise CheckError("build of configuration %s failed" % cfg)
        with open(stamp, "w") as f:
            f.write(key)
        return Build(cfg, out)

def build_many(cfgs):
    return [build(c) for c in cfgs]

def build_native(name, sources, cfg, cxx=False, extra=()):
    """Compiles a C/C++ harness of /verif against the libraries of build `cfg`."""
    b = build(cfg)
    cc, ccx, flags, margs = CONFIGS[cfg]
    out = os.path.join(b.out, "vnative")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name)
    defs = []
    if "debug=1" not in margs:
        defs.append("-DNDEBUG")
    if "mad_gc=1" in margs:
        defs.append("-DCONFIG_MAD_GC")
    if "seqfail=1" in margs:
        defs.append("-DCONFIG_SEQ_FAIL")
    h = hashlib.sha256()
    for s in sources:
        h.update(open(s, "rb").read())
    h.update(repr((flags, defs, extra)).encode())
    stamp = exe + ".stamp"
    with open(exe + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest() \
           and os.path.getmtime(exe) > os.path.getmtime(b.kos):
            return exe
        libs = sorted(glob.glob(os.path.join(b.out, "modules", "*.a"))) + sorted(glob.glob(os.path.join(b.out, "core", "*.a")))
        cmd = [ccx if cxx else cc] + list(flags.split()) + defs + \
              ["-I" + REPO, "-I" + os.path.join(REPO, "inc"), "-I" + os.path.join(b.out)] + list(extra) + \
              list(sources) + libs + sched_link(cfg).split() + ["-o", exe, "-lm", "-lpthread", "-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stderr.write(" ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-6000:])
            raise CheckError("native harness %s failed to build" % name)
        with open(stamp, "w") as f:
            f.write(h.hexdigest())
    return exe

# ---------------------------------------------------------------------------------------------

BASE_ENV = {k: v for k, v in os.environ.items() if not k.startswith(("KOS", "VERIF", "ASAN", "UBSAN", "TSAN", "LSAN"))}
BASE_ENV.update({
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_string_checks=0:abort_on_error=0:handle_abort=1",
    "LSAN_OPTIONS": "exitcode=98:report_objects=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=0:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C.UTF-8", "TZ": "UTC", "TERM": "dumb",
})

NOBODY = 65534
AS_NOBODY = False
def unprivileged(b):
    """From now on, everything run() starts belongs to an unprivileged user, who sees copies of the interpreter and modules."""
    global AS_NOBODY
    d = scratch()
    os.chmod(d, 0o777)
    kos = os.path.join(d, "kos_" + b.cfg)
    shutil.copy(b.kos, kos)
    os.chmod(kos, 0o755)
    mods = os.path.join(d, "modules")
    os.makedirs(mods, exist_ok=True)
    for f in glob.glob(os.path.join(REPO, "modules", "*.kos")):
        shutil.copy(f, mods)
    for f in os.listdir(mods):
        os.chmod(os.path.join(mods, f), 0o644)
    os.chmod(mods, 0o755)
    BASE_ENV["KOSPATH"] = mods
    BASE_ENV["HOME"] = d
    AS_NOBODY = True
    u = Build(b.cfg, b.out)
    u.kos = kos
    return u

class Res:
    __slots__ = ("rc", "out", "err", "timed_out", "wall")
    def text(self):
        return self.out.decode("utf8", "surrogateescape")
    def etext(self):
        return self.err.decode("utf8", "surrogateescape")
    def abnormal(self):
        """A description if the process ended in a way no correct run may: crash, assertion,
        sanitizer report; None otherwise."""
        e = self.err
        if self.timed_out:
            return "did not finish within its time limit"
        if b"ERROR: AddressSanitizer" in e: return "AddressSanitizer report"
        if b"runtime error:" in e: return "UndefinedBehaviorSanitizer report"
        if b"WARNING: ThreadSanitizer" in e: return "ThreadSanitizer report"
        if b"LeakSanitizer has encountered a fatal error" in e: return None
        if b"ERROR: LeakSanitizer" in e: return "LeakSanitizer report"
        if self.rc < 0: return "killed by signal %d" % -self.rc
        if self.rc in (98, 99): return "sanitizer exit code %d" % self.rc
        return None

def run(cmd, stdin=b"", timeout=120, env=None, cwd=None, retry_timeout=True, limit_mb=None, max_out=64 << 20):
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    t0 = time.time()
    r = Res()
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if AS_NOBODY and os.geteuid() == 0:
            os.setgroups([]); os.setgid(NOBODY); os.setuid(NOBODY)
        if limit_mb:
            resource.setrlimit(resource.RLIMIT_AS, (limit_mb << 20, limit_mb << 20))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, start_new_session=True, preexec_fn=pre)
    try:
        r.out, r.err = p.communicate(stdin, timeout=timeout)
        r.rc = p.returncode
        r.timed_out = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        r.out, r.err = p.communicate()
        r.rc = -9
        r.timed_out = True
        if retry_timeout:
            return run(cmd, stdin, timeout * 3, env, cwd, False, limit_mb)
    r.wall = time.time() - t0
    return r

_scratch = None
_scratch_lock = threading.Lock()
def scratch():
    """A scratch directory removed at exit."""
    global _scratch
    with _scratch_lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="kosverif.")
            import atexit
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

_ctr = 0
def scratch_path(suffix=""):
    global _ctr
    d = scratch()
    with _scratch_lock:
        _ctr += 1
        return os.path.join(d, "t%d%s" % (_ctr, suffix))

def run_script(b, text, args=(), **kw):
    if isinstance(text, str):
        text = text.encode("utf8", "surrogateescape")
    p = scratch_path(".kos")
    with open(p, "wb") as f:
        f.write(text)
    try:
        return run([b.kos, p] + list(args), **kw)
    finally:
        try:
            os.unlink(p)
        except OSError:
            pass

def pmap(fn, items, workers=NPROC):
    """Parallel map in threads (each item runs a subprocess); order kept."""
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))

def _fork_call(args):
    fn, a = args
    return fn(a)

def ppmap(fn, items, workers=NPROC):
    """Parallel map in processes, for CPU-heavy Python."""
    with cf.ProcessPoolExecutor(workers) as ex:
        return list(ex.map(_fork_call, [(fn, i) for i in items]))

# ---------------------------------------------------------------------------------------------

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)

class Check:
    MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX", "5"))
    scale = 1.0
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.nviol = 0
        self.extra = {}
        self.known_hit = {}
        self.lock = threading.Lock()
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
        shutil.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)

    def n(self, quick, thorough):
        return max(1, int((thorough if self.tier == "thorough" else quick) * self.scale))

    def subrng(self, *key):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, "/".join(map(str, key))))

    def case(self, key=None, n=1):
        """Counts n evaluations; key identifies the (distinct, non-trivial) case."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.keys.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s if not isinstance(s, str) else s[:2000])

    def stat(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, what, files=None, key=None):
        """Reports one violation; files are written to its replay directory. `key` is the
        identity of the failing input, matched against the known findings."""
        with self.lock:
            for k in self.known:
                if key is not None and k.get("key") == key:
                    self.known_hit[key] = k
                    return
            self.nviol += 1
            if self.nviol > self.MAX_VIOLATIONS:
                return
            d = os.path.join(VERIF, "replays", self.pid, "%03d" % self.nviol)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "README"), "w", errors="surrogateescape") as f:
                f.write(what + "\n")
            for name, content in (files or {}).items():
                if isinstance(content, str):
                    content = content.encode("utf8", "surrogateescape")
                with open(os.path.join(d, name), "wb") as f:
                    f.write(content)
            sys.stderr.write("[%s] %s\n" % (self.pid, what[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)

    def require(self, cond, what):
        """An internal sanity condition of the check (not of the code under test)."""
        if not cond:
            raise CheckError(what)

    def finish(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.keys),
               "rule": self.rule, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k.get("what", "")), flush=True)
        print("property %s: %d evaluations, %d distinct, %d violations, %.1f s" % (
            self.pid, self.evaluations, len(self.keys), self.nviol, time.time() - self.t0), flush=True)
        return 1 if self.nviol else 0

def main(fn, *a, **kw):
    """Runs a check function taking a Check; maps errors of the check itself to exit code 2."""
    c = Check(*a, **kw)
    try:
        fn(c)
    except CheckError as e:
        sys.stderr.write("check error: %s\n" % e)
        if not c.nviol:
            c.finish()
            sys.exit(2)
    sys.exit(c.finish())
