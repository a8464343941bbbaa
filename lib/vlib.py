"""Shared machinery: building the drivers from /repo, running them, running TLC."""
import os, sys, json, subprocess, tempfile, shutil, time, re, glob, hashlib, random, atexit, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
WORK = tempfile.mkdtemp(prefix="kvverif.", dir=_base)
os.chmod(WORK, 0o755)
atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))


class CheckError(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


def log(*a):
    print(*a, flush=True)


def wd(name):
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    return d


# ----------------------------------------------------------------- building
WRAPS = """open open64 openat openat64 creat creat64 read pread pread64 write pwrite pwrite64 readv writev lseek lseek64 ftruncate ftruncate64
truncate truncate64 fsync fdatasync sync syncfs close flock fcntl fcntl64 lockf rename unlink dup mkstemp usleep nanosleep sleep""".split()


def repo_sources(mpi=False):
    out = []
    for f in sorted(glob.glob(REPO + "/src/*.c")):
        b = os.path.basename(f)
        if b in ("kvtree_print.c", "tv_data_display.c"):
            continue
        if b.startswith("kvtree_mpi") and not mpi:
            continue
        out.append(f)
    return out


def build(name, driver_srcs, mpi=False, flags=(), wraps=WRAPS, hooks=True, libs=("-lz", "-lpthread", "-lm"), asan=True, repo=True, extra_srcs=()):
    d = wd("build_" + name)
    exe = os.path.join(d, name)
    cflags = ["-g", "-O1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w", "-I" + HARN + "/inc", "-I" + HARN, "-I" + REPO + "/src"]
    if asan:
        cflags += ["-fsanitize=address"]
    if hooks:
        cflags += ["-DKVTREE_VERIF_HOOKS"]
    if mpi:
        cflags += ["-I" + HARN + "/fakempi"]
    cflags += list(flags)
    srcs = [(s, os.path.join(HARN, s)) for s in driver_srcs]
    if driver_srcs:
        srcs.append(("iowrap.c", HARN + "/iowrap.c"))
    else:
        wraps = ()
    srcs += [("lib_" + os.path.basename(s), s) for s in (repo_sources(mpi) if repo else [])]
    srcs += [("x_" + os.path.basename(s), s) for s in extra_srcs]
    objs = []

    def cc(item):
        n, s = item
        o = os.path.join(d, n.replace("/", "_") + ".o")
        r = subprocess.run(["gcc"] + cflags + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (s, r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    ld = ["gcc"] + (["-fsanitize=address"] if asan else []) + objs + ["-Wl,--wrap=" + w for w in wraps] + list(libs) + ["-o", exe]
    r = subprocess.run(ld, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("link failed: " + r.stderr[-3000:])
    return exe


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=16:detect_stack_use_after_return=1:max_allocation_size_mb=3000"}


HANGS = []


def run_seq(exe, histories, tag="t", timeout=600, args=(), fill=None, maxalloc=None):
    """Run histories (lists of script lines, each implicitly ended) through seqdrv.
    A history whose run dies gets a CRASH event.  Returns (trace path, events, crashes)."""
    d = wd("run_" + tag)
    tr = os.path.join(d, "trace.ndjson")
    if os.path.exists(tr):
        os.unlink(tr)
    env = dict(os.environ, **ASAN_ENV)
    if fill is not None:                 # what fresh memory holds (default: 0xbe)
        env["ASAN_OPTIONS"] += ":malloc_fill_byte=%d:max_malloc_fill_size=1000000" % fill
    if maxalloc:
        env["ASAN_OPTIONS"] += ":max_allocation_size_mb=%d" % maxalloc
    crashes = []
    todo = list(range(len(histories)))
    crash_budget = 12
    while todo:
        sc = os.path.join(d, "script")
        with open(sc, "w") as f:
            for h in todo:
                for ln in histories[h]:
                    f.write(ln + "\n")
                f.write("end\n")
        scratch = os.path.join(d, "scratch")
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        before = sum(1 for _ in open(tr)) if os.path.exists(tr) else 0
        try:
            r = subprocess.run([exe, sc, tr, scratch] + list(args), env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out")
        if r.returncode in (93, 94, 95, 96, 97):
            raise CheckError("driver error %d: %s" % (r.returncode, r.stderr[-500:]))
        lines = open(tr).read().split("\n")[before:]
        if lines and lines[-1] == "":
            lines.pop()
        done = sum(1 for x in lines if x.startswith('{"op":"end"'))
        if r.returncode == 0 and done == len(todo):
            break
        # history todo[done] died: keep the prefix it logged, mark the crash, go on with the rest
        if r.returncode == 0:
            raise CheckError("driver stopped early without a failure")
        h = todo[done]
        k = 0
        for x in reversed(lines):
            if x.startswith('{"op":"end"'):
                break
            k += 1
        op = histories[h][k] if k < len(histories[h]) else "end"
        # drop a partial last line if any
        whole = open(tr).read()
        if whole and not whole.endswith("\n"):
            whole = whole[:whole.rfind("\n") + 1]
        with open(tr, "w") as f:
            f.write(whole)
            f.write('{"op":"CRASH","lv":0,"d":[]}\n{"op":"end","lv":0,"d":[[0,[]],[1,[]],[2,[]],[3,[]]]}\n')
        crashes.append(dict(history=h, op=op, status=r.returncode, stderr=r.stderr[-2500:]))
        todo = todo[done + 1:]
        crash_budget -= 1
        if r.returncode == -14:          # never ended: such a run takes its whole time limit
            HANGS.append(h)
            crash_budget -= 3
        if crash_budget <= 0 or len(HANGS) > 6 and r.returncode == -14:
            log("note: too many crashing histories, %d not run" % len(todo))
            break
    events = [json.loads(x) for x in open(tr)] if os.path.getsize(tr) < 400 << 20 else None
    return tr, events, crashes


# ---------------------------------------------------------------------- TLC
def tlc(module, cfg_text, env=None, workers="auto", timeout=800, extra=(), tag=None, xss="256m", heap="6g", coverage=False):
    """Run TLC on spec/<module>.tla in a private directory. Returns dict with output and statistics."""
    d = tempfile.mkdtemp(prefix="tlc_" + (tag or module) + "_", dir=WORK)
    for f in glob.glob(SPEC + "/*.tla"):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(cfg_text)
    cmd = ["java", "-Xss" + xss, "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLACP, "tlc2.TLC", "-metadir", os.path.join(d, "states"),
           "-workers", str(workers), "-config", "MC.cfg", "-deadlock", "-noGenerateSpecTE", "-lncheck", "final"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    outp = os.path.join(d, "out")
    try:
        with open(outp, "w") as f:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -1
    out = open(outp, errors="replace").read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    res = dict(rc=rc, out=out, wall=time.time() - t0, states=int(m[-1][1]) if m else 0, generated=int(m[-1][0]) if m else 0,
               ok="Model checking completed. No error has been found." in out,
               violated=re.findall(r"(?:Invariant|property|Temporal properties) ?(\w*) ?(?:is|were|was) violated", out),
               depth=int((re.findall(r"depth of the complete state graph search is (\d+)", out) or [0])[-1]))
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_must(module, cfg, what, **kw):
    """design-level run that has to complete without error"""
    r = tlc(module, cfg, **kw)
    if not r["ok"]:
        raise CheckError("TLC on %s (%s) did not complete cleanly (rc %s):\n%s" % (module, what, r["rc"], r["out"][-3500:]))
    return r


def validate(trace, module="TraceSeq", env=None, timeout=800, cfg="SPECIFICATION Spec\n"):
    """Validate a trace; returns (list of rejected (1-based line, op), tlc result)."""
    e = dict(TRACE=trace, CHECKMEM="0", CHECKORDER="0", CHECKEXACT="0", CHECKMODE="0")
    e.update(env or {})
    r = tlc(module, cfg, env=e, timeout=timeout, tag="val")
    if not r["ok"]:
        raise CheckError("trace validation did not complete (rc %s):\n%s" % (r["rc"], r["out"][-3500:]))
    rej = sorted(set((int(a), b) for a, b in re.findall(r'"REJECT (\d+) ([^"]*)"', r["out"])))
    return rej, r


def design_runs(chk, module, runs, jobs=4):
    """Runs of a design-level module: a list of (name, cfg, expected to be violated?).  The design has
    to satisfy its invariants, and each deliberately wrong variant has to violate one - a
    specification that accepts them says nothing."""
    def one(run):
        name, cfg, bad = run
        r = tlc(module, cfg, workers=2 if len(runs) > 1 else "auto", tag="design", heap="4g")
        if bad and not r["violated"]:
            raise CheckError("%s: variant %s violates nothing (rc %s):\n%s" % (module, name, r["rc"], r["out"][-1500:]))
        if not bad and not r["ok"]:
            raise CheckError("%s: %s did not complete cleanly (rc %s):\n%s" % (module, name, r["rc"], r["out"][-3000:]))
        return r
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, runs))
    for (name, cfg, bad), r in zip(runs, res):
        if bad:
            chk.count("design_variants_refuted", 1)
        else:
            chk.add_tlc(r, "%s %s" % (module, name))


# ------------------------------------------------------------------ results
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", ln)
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.findings = [f for f in known_findings() if f[0] == prop]
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    def enough(self):
        """a violation is established, and looking for more would take long"""
        return len(self.violations) >= 5 or bool(self.violations) and time.time() - self.t0 > 240

    def add_tlc(self, r, name):
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["generated"]
        self.cov.setdefault("tlc_runs", []).append(dict(model=name, distinct_states=r["states"], generated=r["generated"], depth=r["depth"], wall_s=round(r["wall"], 1)))

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 1500 else s[:1500])

    def violation(self, what, replay, key=""):
        for f in self.findings:
            if f[1] and f[1] == key:
                self.known.append(f)
                return
        self.violations.append((what, replay, key))

    def count(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), assumptions=self.assumptions)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for f in self.known:
            if f not in seen:
                seen.add(f)
                log("KNOWN-FINDING: property=%s %s" % (self.prop, f[2]))
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            for i, (what, replay, key) in enumerate(self.violations[:5]):
                p = os.path.join(self.replay_dir, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump(dict(property=self.prop, what=what, replay=replay, seed=SEED, tier=TIER), f, indent=1, default=str)
                log("violation: %s" % what)
                log("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        log("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})))
        return 0
