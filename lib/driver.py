"""Build / run / shrink / report machinery shared by all checks.

A check is a set of *units*.  A unit is one harness source compiled for one
configuration (compiler + flags, natively or under qemu-user) from /repo's
working tree, plus the number of generated cases to run for each of its
executable properties.  Work is split into shards that run on all cores.
Every failure - wrong answer, crash, abort, sanitizer report or hang - is
shrunk by re-running edited choice tapes in fresh processes, replayed, and
written to /verif/replays.
"""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 4
MAGIC = 0x50425431

BASE = ["-std=c++11", "-O2", "-g1", "-w", "-pthread"]
# name -> (compiler, flags, runner prefix, slow)
CONFIGS = {
    "ref": ("g++", [], [], False),
    "sse4": ("g++", ["-msse4.1"], [], False),
    "avx2": ("g++", ["-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], [], False),
    "aarch64": ("aarch64-linux-gnu-g++", ["-DVERIF_SLOW", "-O1"],
                ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"], True),
    "dotprod": ("aarch64-linux-gnu-g++",
                ["-DVERIF_SLOW", "-O1", "-march=armv8.2-a+dotprod", "-DGEMMLOWP_DOTPROD_KERNEL"],
                ["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"], True),
    "armhf": ("arm-linux-gnueabihf-g++", ["-mfpu=neon", "-DVERIF_SLOW", "-O1"],
              ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"], True),
    # C++17 build of the same library (over-aligned new etc.), clang's codegen
    "clang_sse4": ("clang++", ["-msse4.1"], [], False),
    "clang_avx2": ("clang++", ["-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], [], False),
    # release builds: assertions off, another compiler, more optimization
    "rel_ref": ("clang++", ["-O3", "-DNDEBUG"], [], False),
    "rel_sse4": ("clang++", ["-O3", "-DNDEBUG", "-msse4.1"], [], False),
    "rel_avx2": ("g++", ["-O3", "-DNDEBUG", "-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], [], False),
    # documented switches: no busy waiting; memalign instead of posix_memalign
    "nobusy_ref": ("g++", ["-DGEMMLOWP_NO_BUSYWAIT", "-DGEMMLOWP_USE_MEMALIGN", "-include", "malloc.h"], [], False),
    "ubsan_ref": ("g++", ["-fsanitize=undefined", "-fno-sanitize-recover=all"], [], False),
}
# MIPS with MSA and WebAssembly: there is a compiler, a linker and something that
# runs the result, but no C library, so the harness is linked with the small run-time support in lib/mini.  The
# headers are the aarch64 and armhf ones (same data models).  Units for such a target are
# always optional: code that needs more of a C library than lib/mini has cannot
# be linked, and that says nothing about the property.
_MINI = os.path.join(VERIF, "lib", "mini")
_A64 = "/usr/aarch64-linux-gnu/include"
FREESTANDING = {"mips64": ["ld.lld", "-static", "-e", "__start"],
                "x86_32": ["ld.lld", "-static", "-e", "__start"],
                "wasm": ["wasm-ld", "--no-entry", "-z", "stack-size=1048576"]}
CONFIGS["mips64"] = ("clang++", ["--target=mips64el-linux-gnuabi64", "-march=mips64r6", "-mmsa", "-O1", "-nostdinc++",
                                 "-isystem", os.path.join(_MINI, "include"), "-isystem", _A64 + "/c++/13",
                                 "-isystem", _A64 + "/c++/13/aarch64-linux-gnu", "-isystem", _A64, "-fno-exceptions",
                                 "-fno-rtti", "-DVERIF_NOEXC", "-DVERIF_SLOW", "-DVERIF_MINI",
                                 "-D_GLIBCXX_EXTERN_TEMPLATE=0"], ["qemu-mips64el", "-cpu", "I6400"], True)
_A32 = "/usr/arm-linux-gnueabihf/include"
CONFIGS["wasm"] = ("clang++", ["--target=wasm32", "-msimd128", "-O1", "-nostdinc++", "-isystem", os.path.join(_MINI, "include"),
                               "-isystem", _A32 + "/c++/13", "-isystem", _A32 + "/c++/13/arm-linux-gnueabihf", "-isystem", _A32,
                               "-fno-exceptions", "-fno-rtti", "-D__ARM_PCS_VFP", "-DVERIF_NOEXC", "-DVERIF_SLOW", "-DVERIF_MINI",
                               "-D_GLIBCXX_EXTERN_TEMPLATE=0"], ["node", os.path.join(_MINI, "wasm_run.js")], True)
CONFIGS["x86_32"] = ("clang++", ["--target=i686-linux-gnu", "-march=i686", "-msse4.1", "-mfpmath=sse", "-mstackrealign", "-O1", "-nostdinc++",
                                 "-isystem", os.path.join(_MINI, "include"), "-isystem", _A32 + "/c++/13",
                                 "-isystem", _A32 + "/c++/13/arm-linux-gnueabihf", "-isystem", _A32, "-fno-exceptions", "-fno-rtti",
                                 "-fno-pic", "-D__ARM_PCS_VFP", "-DVERIF_NOEXC", "-DVERIF_SLOW", "-DVERIF_MINI",
                                 "-D_GLIBCXX_EXTERN_TEMPLATE=0"], ["qemu-i386", "-cpu", "max"], True)
for _c in ("ref", "sse4", "avx2"):
    _cc, _fl, _r, _s = CONFIGS[_c]
    CONFIGS["asan_" + _c] = (_cc, _fl + ["-O1", "-fsanitize=address", "-DVERIF_ASAN",
                                         "-DVERIF_SLOW"], _r, _s)
    CONFIGS["tsan_" + _c] = (_cc, _fl + ["-O1", "-fsanitize=thread", "-DVERIF_TSAN",
                                         "-DVERIF_SLOW"], _r, _s)

# The library's own thread layer over C++11 threads instead of pthread.
for _c in ("ref", "sse4", "tsan_ref", "tsan_sse4"):
    _cc, _fl, _r, _s = CONFIGS[_c]
    CONFIGS["cxxthreads_" + _c] = (_cc, _fl + ["-include", os.path.join(VERIF, "lib", "cxxthreads.h")], _r, _s)

RUN_ENV = dict(os.environ)
RUN_ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=16777216"
RUN_ENV["TSAN_OPTIONS"] = "exitcode=78:halt_on_error=1:second_deadlock_stack=1"
RUN_ENV["UBSAN_OPTIONS"] = "print_stacktrace=0"
RUN_ENV.pop("QEMU_LD_PREFIX", None)


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


class Broken(Exception):
    """The build itself shows that the property does not hold."""

    def __init__(self, unit, msg):
        Exception.__init__(self, msg)
        self.unit, self.msg = unit, msg


GENERATED = ("quantized_mul_kernels_arm_32", "quantized_mul_kernels_arm_64", "streams_arm_32", "streams_arm_64",
             "transform_kernels_arm_32", "transform_kernels_arm_64")


def generate(unit, bdir):
    """A tree like the repository's, in which the kernel headers come fresh from their generators."""
    d = os.path.join(bdir, "generated")
    if os.path.isdir(d):
        return d
    os.makedirs(os.path.join(d, "meta"))
    for e in os.listdir(REPO):
        if e not in ("meta", ".git"):
            os.symlink(os.path.join(REPO, e), os.path.join(d, e))
    for e in os.listdir(os.path.join(REPO, "meta")):
        if e.endswith(".h") and e[:-2] not in GENERATED:
            shutil.copy(os.path.join(REPO, "meta", e), os.path.join(d, "meta", e))
    for g in GENERATED:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "py2run.py"), os.path.join(REPO, "meta", "generators"), g],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=bdir)
        if p.returncode != 0:
            err = p.stderr.decode(errors="replace").strip().splitlines()
            raise Broken(unit, "generator %s.py does not finish: %s" % (g, " | ".join(err[-3:])[:600]))
        with open(os.path.join(d, "meta", g + ".h"), "wb") as f:
            f.write(p.stdout)
    return d


class Unit:
    """One harness x one configuration."""

    def __init__(self, src, config, parts=None, defs=(), extra_src=(), cases=None, timeout=None,
                 threads_per_case=1, name=None, libs=(), flags=(), optional=False, generated=False):
        self.generated = generated
        self.freestanding = config in FREESTANDING
        self.optional, self.built = optional or self.freestanding, False
        self.src, self.config, self.parts = src, config, parts
        self.defs, self.extra_src = list(defs), list(extra_src)
        self.cases = cases or {}
        # per case; the slowest case takes a few seconds
        self.timeout = timeout or (120 if CONFIGS[config][3] or "tsan" in config else 60)
        self.libs = list(libs)
        self.flags = list(flags)
        self.name = name or (os.path.splitext(src)[0] + "." + config)
        self.exe = None

    def compile_jobs(self, bdir):
        cc, flags, self.runner, self.slow = CONFIGS[self.config]
        inc = ["-I" + (generate(self, bdir) if self.generated else REPO), "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]
        objs, jobs = [], []
        d = os.path.join(bdir, self.name)
        os.makedirs(d, exist_ok=True)
        srcs = []
        for p in (self.parts or [None]):
            srcs.append((os.path.join(VERIF, "harness", self.src),
                         [] if p is None else ["-DPART=%d" % p],
                         "main" if p is None else "part%d" % p))
        for s in self.extra_src:
            path = s if os.path.isabs(s) else os.path.join(REPO, s)
            srcs.append((path, [], os.path.basename(s).replace(".", "_")))
        if self.freestanding:
            srcs.append((os.path.join(_MINI, "rt.cc"), [], "rt"))
        for path, d2, tag in srcs:
            o = os.path.join(d, tag + ".o")
            objs.append(o)
            jobs.append([cc] + BASE + flags + self.flags + inc + self.defs + d2 + ["-c", path, "-o", o])
        exe = os.path.join(d, "harness")
        link = [cc] + BASE + flags + self.flags + objs + ["-o", exe, "-pthread"] + self.libs
        if self.freestanding:
            link = FREESTANDING[self.config] + objs + ["-o", exe]
        self.exe = exe
        return jobs, link


def _compile(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        out = p.stdout.decode(errors="replace")
        errs = [l for l in out.splitlines() if "error" in l or "undefined" in l][:12]
        raise BuildError("%s\n%s" % (" ".join(cmd), "\n".join(errs) or out[-3000:]))


def _builds_as_checked_in(u, bdir):
    """Whether the same unit builds from the headers in the repository."""
    u.generated = False
    try:
        jobs, link = u.compile_jobs(os.path.join(bdir, "checked_in"))
        for j in jobs + [link]:
            _compile(j)
        return True
    except BuildError:
        return False
    finally:
        u.generated = True


def build(units, bdir):
    with cf.ThreadPoolExecutor(NPROC) as ex:
        pend = []
        for u in units:
            jobs, link = u.compile_jobs(bdir)
            pend.append((u, [ex.submit(_compile, j) for j in jobs], link))
        links, skipped = [], []
        for u, fs, link in pend:
            try:
                for f in fs:
                    f.result()
            except BuildError as e:
                # A unit that reaches into internals is left out (and said so in
                # the evidence) when those internals are no longer there.
                if u.generated and _builds_as_checked_in(u, bdir):
                    raise Broken(u, "generated headers do not compile: " + " | ".join(str(e).splitlines()[1:4])[:600])
                if not u.optional:
                    raise
                skipped.append("unit %s left out, it does not build: %s" % (u.name, str(e).splitlines()[-1][:300]))
                continue
            links.append((u, ex.submit(_compile, link)))
        for u, f in links:
            try:
                f.result()
            except BuildError as e:
                if u.generated and _builds_as_checked_in(u, bdir):
                    raise Broken(u, "generated headers do not link: " + " | ".join(str(e).splitlines()[1:4])[:600])
                if not u.optional:
                    raise
                skipped.append("unit %s left out, it does not link: %s" % (u.name, str(e).splitlines()[-1][:300]))
                continue
            u.built = True
    return skipped


def read_shared(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 32 + 1024:
        return None
    magic, case, nt, done = struct.unpack_from("<QQQQ", b, 0)
    if magic != MAGIC:
        return None
    msg = b[32:32 + 1024].split(b"\0")[0].decode(errors="replace")
    nt = min(nt, (len(b) - 1056) // 8)
    tape = list(struct.unpack_from("<%dQ" % nt, b, 1056))
    return dict(case=case, done=done, msg=msg, tape=tape)


def classify(rc, out):
    """-> None if ok, else (kind, message)"""
    if rc == 0:
        return None
    if rc == 1:
        line = [l for l in out.splitlines() if l.startswith("FAIL ")]
        if line:
            return ("wrong", line[-1][5:])
        return ("infra", "exit 1 without FAIL: " + out[-500:])
    if rc == 3:
        return ("infra", out[-800:])
    if rc == 77 and "AddressSanitizer" in out:
        l = [l for l in out.splitlines() if "ERROR: AddressSanitizer" in l]
        return ("crash", (l or ["AddressSanitizer"])[0])
    if rc == 78 and "ThreadSanitizer" in out:
        l = [l for l in out.splitlines() if "WARNING: ThreadSanitizer" in l or "SUMMARY" in l]
        return ("race", " / ".join(l))
    sig = None
    if rc < 0:
        sig = -rc
    elif rc > 128 and rc - 128 in (4, 5, 6, 7, 8, 11, 14):
        sig = rc - 128
    if sig == signal.SIGALRM:
        return ("hang", "case did not finish within its time limit")
    if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        tail = out.strip().splitlines()[-3:]
        if "uncaught target signal" in out or True:
            return ("crash", "%s %s" % (signal.Signals(sig).name, " | ".join(tail)[:600]))
    if sig in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
        return ("infra", "killed by signal %d" % sig)
    if "runtime error:" in out:
        return ("crash", [l for l in out.splitlines() if "runtime error:" in l][0][:600])
    return ("crash", "exit status %d: %s" % (rc, out.strip()[-500:]))


class Check:
    def __init__(self, pid, units, rule, technique, note, assumptions=()):
        self.pid, self.units, self.rule = pid, units, rule
        self.technique, self.note = technique, note
        self.assumptions = list(assumptions)


def exec_h(unit, args, timeout_s, cwd):
    cmd = unit.runner + [unit.exe] + args
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=RUN_ENV, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout_s)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -signal.SIGALRM, out.decode(errors="replace")
    return p.returncode, out.decode(errors="replace")


class Runner:
    def __init__(self, check, tier, seed, deadline):
        self.c, self.tier, self.seed = check, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + deadline
        # Whatever happens, a report is out by then.
        self.hard = self.t0 + (600 if tier == "quick" else 3500)
        self.bdir = os.path.join(VERIF, "build", "%s.%d" % (check.pid, os.getpid()))
        self.lock = threading.Lock()
        self.stop = False
        self.failures, self.notes = [], []
        self.cases = self.evals = 0
        self.hashes = set()
        self.labels, self.samples, self.per_unit = {}, [], {}
        self.skipped = 0

    def shards(self):
        items = []
        for u in self.c.units:
            if not u.built:
                continue
            for prop, spec in u.cases.items():
                n = spec[0] if self.tier == "quick" else spec[1]
                if n <= 0:
                    continue
                nsh = spec[2] if len(spec) > 2 else min(NPROC, max(1, n // 8))
                per = (n + nsh - 1) // nsh
                for i in range(nsh):
                    a, b = i * per, min(n, (i + 1) * per)
                    if b > a:
                        items.append((u, prop, a, b - a))
        # interleave: first shard of everything early
        items.sort(key=lambda it: it[2])
        return items

    def useed(self, u):
        """Every configuration explores its own cases."""
        return (self.seed * 1000003 + zlib.crc32(u.name.encode())) & 0x7FFFFFFFFFFF

    def run_shard(self, it, idx):
        u, prop, start, n = it
        if self.stop:
            return
        if time.time() > self.deadline:
            with self.lock:
                self.skipped += n
            return
        base = os.path.join(self.bdir, "s%d" % idx)
        args = ["--prop", prop, "--seed", str(self.useed(u)), "--start", str(start), "--cases", str(n),
                "--shared", base + ".sh", "--out", base + ".json", "--hashes", base + ".hash",
                "--timeout", str(u.timeout), "--stop-at", "%d" % int(self.deadline)]
        rc, out = exec_h(u, args, max(60, self.deadline + u.timeout + 60 - time.time()), self.bdir)
        res = classify(rc, out)
        with self.lock:
            if os.path.exists(base + ".json"):
                j = json.load(open(base + ".json"))
                self.cases += j["cases"]
                self.evals += j["evals"]
                self.skipped += 0 if res else max(0, n - j["cases"])
                for k, v in j["labels"].items():
                    self.labels[k] = self.labels.get(k, 0) + v
                key = u.name + ":" + prop
                self.per_unit[key] = self.per_unit.get(key, 0) + j["cases"]
                for s in j["samples"]:
                    if len([x for x in self.samples if x.startswith("[%s:" % u.name)]) < 2:
                        self.samples.append("[%s:%s] %s" % (u.name, prop, s))
            if os.path.exists(base + ".hash"):
                b = open(base + ".hash", "rb").read()
                for i in range(0, len(b), 8):
                    self.hashes.add((u.name, prop, b[i:i + 8]))
            if res:
                sh = read_shared(base + ".sh")
                if u.freestanding and (res[0] == "infra" or sh is None):
                    self.notes.append("%s/%s stopped early: %s" % (u.name, prop, res[1][-300:]))
                elif res[0] == "infra" or sh is None:
                    self.notes.append("infrastructure problem in %s/%s: %s" % (u.name, prop, res[1]))
                else:
                    if res[0] != "wrong":
                        self.cases += sh["done"] + 1
                        self.evals += sh["done"] + 1
                    self.failures.append(dict(unit=u, prop=prop, kind=res[0], msg=res[1], desc=sh["msg"],
                                              tape=sh["tape"], case=sh["case"], item=it, out=out))
                    self.stop = True
        for e in (".hash", ".json"):
            try:
                os.unlink(base + e)
            except OSError:
                pass

    # --- replay and shrink -------------------------------------------------
    def replay(self, u, prop, tape, repeat=1, timeout=None):
        n = threading.get_ident()
        tf = os.path.join(self.bdir, "r%d.tape" % n)
        sf = os.path.join(self.bdir, "r%d.sh" % n)
        with open(tf, "w") as f:
            f.write(" ".join(map(str, tape)) + "\n")
        t = timeout or u.timeout
        left = max(5, self.hard - time.time())
        rc, out = exec_h(u, ["--prop", prop, "--replay", tf, "--shared", sf, "--repeat", str(repeat),
                             "--timeout", str(t)], min(t * repeat + 60, left), self.bdir)
        res = classify(rc, out)
        if res and (res[0] == "infra" or (res[0] == "hang" and left < t + 5)):
            res = None  # no room left to tell a hang
        return res, read_shared(sf)

    def shrink(self, f):
        u, prop = f["unit"], f["prop"]
        concurrent = f["kind"] == "race"
        rep = 1
        r, sh = self.replay(u, prop, f["tape"])
        if not r:
            rep = 25
            for _ in range(3):
                r, sh = self.replay(u, prop, f["tape"], rep)
                if r:
                    break
        f["reproduced"] = bool(r)
        if not r:
            return
        f["kind2"] = r[0]
        best, bestmsg = (sh or f)["tape"][:], r
        bestdesc = (sh or {}).get("msg", f["desc"])
        tmo = 10 if f["kind"] == "hang" else None
        limit = min(time.time() + (60 if self.tier == "quick" else 150), self.hard - 60)
        tried = set()

        def attempt(t):
            nonlocal best, bestmsg, bestdesc
            key = tuple(t)
            if key in tried or time.time() > limit:
                return False
            tried.add(key)
            r, sh = self.replay(u, prop, t, rep, tmo)
            if r and r[0] == f["kind2"]:
                if sh and (len(sh["tape"]), sh["tape"]) <= (len(best), best):
                    best, bestmsg, bestdesc = sh["tape"][:], r, sh["msg"]
                    return True
                if sh is None:
                    best, bestmsg = list(t), r
                    return True
            return False

        improved = True
        while improved and time.time() < limit:
            improved = False
            # delete blocks
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < limit:
                i = 0
                while i < len(best) and time.time() < limit:
                    if attempt(best[:i] + best[i + size:]):
                        improved = True
                    else:
                        i += size
                size //= 2
            # zero / reduce single values
            for i in range(len(best)):
                if i >= len(best) or time.time() > limit:
                    break
                if best[i] == 0:
                    continue
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                    continue
                lo, hi = 0, best[i]
                for _ in range(14):
                    if hi - lo <= 1 or i >= len(best):
                        break
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1:]) and i < len(best):
                        hi = best[i]
                        improved = True
                    else:
                        lo = mid
                if i < len(best) and best[i] > 0 and attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                    improved = True
        f["tape"], f["msg"], f["desc"] = best, bestmsg[1], bestdesc
        f["repeat"] = rep

    def confirm(self, f):
        """True if the failure is to be reported."""
        u = f["unit"]
        self.shrink(f)
        if f["reproduced"]:
            hits = 0
            for _ in range(3):
                r, _sh = self.replay(u, f["prop"], f["tape"], max(f.get("repeat", 1), 1))
                hits += bool(r)
                if f["kind"] == "hang" and hits:
                    break
            f["hits"] = hits
            if hits:
                return True
        # A wrong answer that was observed is a wrong answer, even when the
        # schedule that produced it does not come back.
        if f["kind"] in ("wrong", "race"):
            return True
        if f["kind"] == "crash" and not u.slow:
            return True
        # hang, or crash under emulation: must come back when the shard is rerun
        for k in range(2):
            if time.time() > self.hard - 30:
                break
            _u, prop, start, n = f["item"]
            rc, out = exec_h(u, ["--prop", prop, "--seed", str(self.useed(u)), "--start", str(start), "--cases",
                                 str(n), "--shared", os.path.join(self.bdir, "c.sh"), "--timeout", str(u.timeout)],
                             min(240, max(30, self.hard - time.time())), self.bdir)
            res = classify(rc, out)
            if res and res[0] != "infra":
                return True
        self.notes.append("unreproducible %s under %s, not reported: %s" % (f["kind"], u.name, f["msg"]))
        return False

    def save_replay(self, f):
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%s-seed%d.json" % (self.c.pid, f["unit"].name, f["prop"], self.seed))
        with open(path, "w") as o:
            json.dump(dict(property=self.c.pid, unit=f["unit"].name, harness=f["unit"].src,
                           config=f["unit"].config, prop=f["prop"], seed=self.seed, case=f["case"],
                           kind=f["kind"], message=f["msg"], input=f["desc"], tape=f["tape"],
                           repeat=f.get("repeat", 1), reproduced=f.get("reproduced"),
                           how="python3 /verif/check.py %s --replay %s" % (self.c.pid, path)), o, indent=1)
        return path

    def run(self):
        os.makedirs(self.bdir, exist_ok=True)
        try:
            return self._run()
        finally:
            shutil.rmtree(self.bdir, ignore_errors=True)

    def _run(self):
        tb = time.time()
        try:
            self.notes += build(self.c.units, self.bdir)
        except Broken as e:
            self.build_s = time.time() - tb
            f = dict(unit=e.unit, prop="generate", case=0, kind="wrong", msg=e.msg, desc="generators as they are", tape=[])
            log("property %s violated: %s" % (self.c.pid, e.msg))
            log("VIOLATION property=%s replay=%s" % (self.c.pid, self.save_replay(f)))
            self.evidence(1)
            return 1
        self.build_s = time.time() - tb
        items = self.shards()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda p: self.run_shard(p[1], p[0]), enumerate(items)))
        viol = []
        for f in self.failures[:3]:
            if viol:
                break
            if self.confirm(f):
                viol.append(f)
        rc = 0
        for f in viol:
            path = self.save_replay(f)
            log("property %s violated: %s" % (self.c.pid, f["msg"]))
            log("  unit %s prop %s case %d; shrunk input: %s" % (f["unit"].name, f["prop"], f["case"], f["desc"]))
            log("VIOLATION property=%s replay=%s" % (self.c.pid, path))
            rc = 1
        if self.failures and not viol:
            # stopped early on something that was not confirmed: finish the work
            self.stop = False
            rest = [f["item"] for f in self.failures]
            self.notes.append("%d shard(s) ended early on an unconfirmed failure" % len(rest))
        if rc == 0 and self.notes:
            for n in self.notes:
                log("NOTE", n)
        if rc == 0 and self.cases == 0:
            log("ERROR: nothing was executed")
            rc = 2
        self.evidence(len(viol))
        log("%s %s: cases=%d evaluations=%d nontrivial=%d skipped=%d build=%.1fs wall=%.1fs rc=%d" % (
            self.c.pid, self.tier, self.cases, self.evals, len(self.hashes), self.skipped, self.build_s,
            time.time() - self.t0, rc))
        return rc

    def evidence(self, nviol):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.c.pid, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=self.cases, distinct_nontrivial=len(self.hashes), rule=self.c.rule,
                                samples=self.samples[:24], comparisons_made=self.evals,
                                cases_per_unit=self.per_unit, case_classes=dict(sorted(self.labels.items())),
                                cases_not_run_for_time=self.skipped, notes=self.notes),
                  assumptions=self.c.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        with open(os.path.join(VERIF, "evidence", self.c.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def replay_file(check, path):
    j = json.load(open(path))
    u = [u for u in check.units if u.name == j["unit"]]
    if not u:
        log("no unit", j["unit"])
        return 2
    r = Runner(check, "quick", j["seed"], 600)
    os.makedirs(r.bdir, exist_ok=True)
    try:
        try:
            build(u, r.bdir)
        except Broken as e:
            log("replay:", e.msg)
            log("VIOLATION property=%s replay=%s" % (check.pid, path))
            return 1
        rc = 0
        for _ in range(3):
            res, sh = r.replay(u[0], j["prop"], j["tape"], max(1, j.get("repeat", 1)))
            log("replay:", res or "PASS", "| input:", (sh or {}).get("msg"))
            if res:
                rc = 1
        if rc:
            log("VIOLATION property=%s replay=%s" % (check.pid, path))
        return rc
    finally:
        shutil.rmtree(r.bdir, ignore_errors=True)
