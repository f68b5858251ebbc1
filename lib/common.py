"""Shared machinery: building /repo's current tree with instrumentation, running
observed executions in parallel, recording violations, writing evidence."""
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = max(2, min(16, os.cpu_count() or 4))
# A working area of its own for each run; nothing is shared between runs.
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "build"))
REPLAY = os.path.join(VERIF, "replay")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))

SAN_EXIT = 99
# automatic variables start with a pattern, so that a value that is read before
# it is set is not the harmless zero it often happens to be
SAN_FLAGS = ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern")
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=%d:abort_on_error=0:handle_abort=0:"
                    "allocator_may_return_null=0:strict_string_checks=1:"
                    "detect_stack_use_after_return=1:max_allocation_size_mb=3000:"
                    "hard_rss_limit_mb=2500" % SAN_EXIT,
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=%d:abort_on_error=0:"
                    "history_size=4" % SAN_EXIT,
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=%d" % SAN_EXIT,
}

VARIANTS = {
    # name: (compiler, flags, extra cmake definitions)
    "san": ("g++", SAN_FLAGS, []),
    "clangsan": ("clang++", SAN_FLAGS, []),
    "plain": ("g++", "-O1 -g", []),
    "O0": ("g++", "-O0 -g", []),
    "O3": ("g++", "-O3 -DNDEBUG", []),
    "clangO2": ("clang++", "-O2", []),
    "log3": ("g++", "-O1", ["-DLOG_LEVEL=3"]),
    "tsan": ("g++", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread", []),
    "clangtsan": ("clang++", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
                  []),
    "fuzz": ("clang++", SAN_FLAGS.replace("undefined ", "undefined,fuzzer-no-link "),
             []),
    "cov": ("g++", "-O0 -g --coverage -fprofile-update=atomic -DMON_COV", []),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "TMPDIR")}
    env["LC_ALL"] = "C.UTF-8"
    env.update(SAN_ENV)
    if extra:
        env.update(extra)
    return env


class Build:
    """An instrumented build of the tree in REPO, in a private directory."""

    def __init__(self, variant="san", tag=""):
        self.variant = variant
        cxx, flags, defs = VARIANTS[variant]
        self.cxx, self.flags = cxx, flags
        self.dir = os.path.join(WORK, variant + tag)
        self.src = os.path.join(self.dir, "tree")
        self.obj = os.path.join(self.dir, "obj")
        os.makedirs(self.dir, exist_ok=True)
        # the tree is copied (same content keeps its time stamp) so that the
        # build, which writes a generated header, never touches the repository
        self._sync(os.path.join(REPO, "src"), os.path.join(self.src, "src"))
        os.makedirs(self.src, exist_ok=True)
        self._copy(os.path.join(REPO, "CMakeLists.txt"),
                   os.path.join(self.src, "CMakeLists.txt"))
        args = ["cmake", "-S", self.src, "-B", self.obj, "-G", "Ninja",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_COMPILER=" + cxx,
                "-DCMAKE_CXX_FLAGS_DEBUG=" + flags,
                "-DENABLE_TESTS=OFF", "-DENABLE_INTEGRATION_TESTS=OFF",
                "-DDOWNLOAD_TUTORIAL_FILES=OFF"] + defs
        env = clean_env()
        r = sh(args, env=env)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        r = sh(["ninja", "-C", self.obj], env=env)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        self.calc = os.path.join(self.obj, "calc_J")
        self.lib = None
        for root, _, files in os.walk(self.obj):
            for f in files:
                if f.endswith(".a") and "catnip" in f:
                    self.lib = os.path.join(root, f)
        if not self.lib or not os.path.exists(self.calc):
            raise BuildError("build products are missing")

    @staticmethod
    def _copy(a, b):
        data = open(a, "rb").read()
        if os.path.exists(b) and open(b, "rb").read() == data:
            return
        with open(b, "wb") as f:
            f.write(data)

    def _sync(self, a, b):
        keep = set()
        for root, dirs, files in os.walk(a):
            dirs[:] = [d for d in dirs if d not in (".git", "_build")]
            rel = os.path.relpath(root, a)
            os.makedirs(os.path.join(b, rel), exist_ok=True)
            for f in files:
                if f == "calcJconfig.hpp":
                    continue
                p = os.path.normpath(os.path.join(rel, f))
                keep.add(p)
                self._copy(os.path.join(root, f), os.path.join(b, p))
        for root, _, files in os.walk(b):
            for f in files:
                p = os.path.normpath(os.path.relpath(os.path.join(root, f), b))
                if p not in keep and f != "calcJconfig.hpp":
                    os.unlink(os.path.join(root, f))

    def harness(self, name, extra=()):
        """Compile /verif/harness/<name>.cpp against the instrumented library."""
        out = os.path.join(self.dir, name)
        inc = os.path.join(self.src, "src")
        cmd = [self.cxx, "-std=c++17"] + self.flags.split() + \
              ["-I", os.path.join(VERIF, "harness"), "-I", inc,
               "-I", os.path.join(inc, "libcatnip"),
               os.path.join(VERIF, "harness", name + ".cpp"), self.lib,
               "-o", out] + list(extra)
        r = sh(cmd, env=clean_env())
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        return out


class Outcome:
    """What one observed execution did."""
    __slots__ = ("rc", "sig", "out", "err", "timeout", "cmd", "cpu")

    def __init__(self, rc, out, err, timeout, cmd):
        self.rc = rc
        self.sig = -rc if rc is not None and rc < 0 else 0
        self.out, self.err, self.timeout, self.cmd = out, err, timeout, cmd
        self.cpu = False   # it used up its allowance of processor time

    @property
    def memory_error(self):
        if self.rc == SAN_EXIT or self.sig in (signal.SIGSEGV, signal.SIGBUS,
                                               signal.SIGILL, signal.SIGFPE,
                                               signal.SIGTRAP):
            return True
        e = self.err
        return ("AddressSanitizer" in e or "ThreadSanitizer" in e or
                "runtime error:" in e or
                "UndefinedBehaviorSanitizer" in e)

    @property
    def ok(self):
        return self.rc == 0 and not self.timeout and not self.memory_error

    @property
    def rejected(self):
        """An orderly refusal: error exit or uncaught exception."""
        return (not self.timeout and not self.memory_error and
                self.rc not in (0, None) and
                (self.sig in (0, signal.SIGABRT)))

    def brief(self):
        return "rc=%s%s out=%r err=%r" % (
            self.rc, " TIMEOUT" if self.timeout else "",
            self.out[-400:], self.err[-700:])


def run(cmd, timeout=20, cwd=None, env=None, stdin=None, mem_mb=None, cpu=None):
    """stdin: bytes; cpu: seconds of processor time, which say more about the process than
    the time that passed (0: no limit; default: as timeout)"""
    if cpu is None:
        cpu = timeout
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL if stdin is None
                         else subprocess.PIPE, cwd=cwd,
                         env=env or clean_env(), start_new_session=True,
                         preexec_fn=pre if mem_mb else None)
    to = False
    if cpu:
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (int(cpu), int(cpu) + 2))
        except (ProcessLookupError, PermissionError):
            pass
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    o = Outcome(p.returncode, out.decode("utf-8", "replace"),
                err.decode("utf-8", "replace"), to, cmd)
    if o.sig == signal.SIGXCPU:
        o.timeout = o.cpu = True
    return o


def run_confirm(cmd, timeout=20, **kw):
    """A time-out alone is inconclusive (the machine may be busy): it counts
    only when a second execution with six times the allowance repeats it."""
    o = run(cmd, timeout=timeout, **kw)
    if o.timeout and not o.cpu:
        o = run(cmd, timeout=timeout * 6, cpu=timeout, **kw)
    return o


def load_known():
    """known_findings: entries 'property=<id> key=<key> <text>' suppress; the
    'fixed:' entries are a record and suppress nothing."""
    known = {}
    p = os.path.join(VERIF, "known_findings")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"property=(\S+) key=(\S+) (.*)$", line)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


class Check:
    """Collects what the monitors observed for one property."""

    def __init__(self, pid, rule, technique=None):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counters = {}
        self.viol = []
        self.known_hit = {}
        self.known = load_known().get(pid, {})
        self.lock = threading.Lock()
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.rng = random.Random("%s/%d" % (pid, SEED))

    def rng_for(self, *parts):
        return random.Random("/".join([self.pid, str(SEED)] +
                                      [str(p) for p in parts]))

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, key, n=1):
        """One non-trivial observation; key says what makes it distinct."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                if not isinstance(key, (str, bytes)):
                    key = repr(key)
                if isinstance(key, str):
                    key = key.encode()
                self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def violation(self, what, files=None, key=None, detail=None):
        """Record a violation; files: {name: path or bytes} copied for replay."""
        with self.lock:
            if key is not None and key in self.known:
                self.known_hit[key] = self.known[key]
                return
            n = len(self.viol)
            rp = os.path.join(REPLAY, self.pid, "v%d" % n)
            self.viol.append((what, rp))
            if n >= 5:
                return
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp, exist_ok=True)
            with open(os.path.join(rp, "what.txt"), "w") as f:
                f.write("property %s seed %d tier %s\n%s\n%s\n" %
                        (self.pid, SEED, TIER, what, detail or ""))
            for name, src in (files or {}).items():
                dst = os.path.join(rp, name)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                try:
                    if isinstance(src, bytes):
                        open(dst, "wb").write(src)
                    elif os.path.isdir(src):
                        shutil.copytree(src, dst, dirs_exist_ok=True)
                    else:
                        shutil.copy(src, dst)
                except OSError:
                    pass

    @property
    def enough(self):
        return len(self.viol) >= 8

    def parallel(self, fn, items):
        """Run fn over items; stop handing out work when enough is known."""
        it = iter(items)
        lk = threading.Lock()
        errs = []

        def worker():
            while True:
                if self.enough or errs:
                    return
                with lk:
                    try:
                        x = next(it)
                    except StopIteration:
                        return
                try:
                    fn(x)
                except Exception as e:  # a harness problem, never a verdict
                    import traceback
                    errs.append("%r on %r\n%s" % (e, x, traceback.format_exc()))
                    return
        ts = [threading.Thread(target=worker) for _ in range(JOBS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise RuntimeError("check machinery failed: " + errs[0])

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.keys),
                "rule": self.rule,
                "samples": self.samples,
                "observed": dict(sorted(self.counters.items())),
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.viol),
        }
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for k, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for what, rp in self.viol[:5]:
            print("  " + what.replace("\n", " | ")[:1500])
        print("%s: %d evaluations, %d distinct, %d violations, %.1f s" %
              (self.pid, self.evaluations, len(self.keys), len(self.viol), wall))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][1]))
            return 1
        # a run that observed nothing decides nothing
        if self.evaluations == 0 or len(self.keys) < 2:
            print("no observations were made")
            return 2
        return 0


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick
