"""Common machinery: build the library and driver from /repo, run scripts, run TLC,
report evidence and violations."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
EVID = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "evidence")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    """The machinery itself failed: the check gives no verdict (exit 2)."""


def log(*a):
    print(*a, flush=True)


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("APOLLO_") and k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD")}
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
             OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo",
             ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0")
    e.setdefault("LANG", "C.UTF-8")
    return e


# ------------------------------------------------------------------ build
def _tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("src", "include", "cmake")] + [HARNESS]
    files = [os.path.join(REPO, f) for f in os.listdir(REPO) if os.path.isfile(os.path.join(REPO, f))]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
    return h.hexdigest()[:16]


# constructor of Apollo::Region: the Kokkos driver learns of the regions the connector creates
REGION_CTOR = "_ZN6Apollo6RegionC1EiPKciiRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_"
ASAN = "-O1 -g -fsanitize=address -fno-omit-frame-pointer"
VARIANTS = {
    # name: (cmake options, cxx flags, needs cuda/hip timers, driver source, driver flags)
    "main": ([], ASAN + " -DENABLE_CUDA -DENABLE_HIP -D__HIP_PLATFORM_AMD__ -I" + HARNESS + "/fakegpu", True, "driver.cpp", "-DDRV_KOKKOS"),
    "jit": (["-DENABLE_JIT_DTREE=ON"], "-O1 -g -I" + HARNESS + "/fakegpu", False, "driver.cpp", "-ldl"),
    "mpi": (["-DENABLE_MPI=ON"], "-O1 -g -DENABLE_MPI -DENABLE_CUDA -DENABLE_HIP -D__HIP_PLATFORM_AMD__ -I" + HARNESS + "/fakegpu", True, "driver.cpp", "-DDRV_MPI -DDRV_KOKKOS"),
}


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=clean_env(), **kw)
    return p.returncode, p.stdout


def build(variant):
    """Builds library + driver of a variant from REPO's working tree; returns the driver path."""
    opts, flags, gpu, src, dflags = VARIANTS[variant]
    key = _tree_hash() + hashlib.sha256(repr(VARIANTS[variant]).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, variant)
    exe = os.path.join(d, "driver")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    t0 = time.time()
    if os.path.exists(stamp):
        os.remove(stamp)
    os.makedirs(d, exist_ok=True)
    b = os.path.join(d, "cmake")
    cmd = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=gcc",
           "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
           "-DENABLE_TESTS=OFF", "-DCMAKE_CXX_FLAGS=" + flags] + opts
    rc, o = _run(cmd)
    if rc:
        raise ToolError("cmake configure failed:\n" + o[-3000:])
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/connectors/kokkos/include", "-I" + HARNESS + "/fakegpu", "-I" + b]
    base = ["mpicxx" if variant == "mpi" else "g++", "-std=c++17"] + flags.split() + inc
    jobs = [(["ninja", "-C", b, "apollo"])]
    objs = [os.path.join(d, "driver.o")]
    jobs.append(base + [x for x in dflags.split() if x.startswith("-D")] + ["-c", os.path.join(HARNESS, src), "-o", objs[0]])
    if gpu:
        for t in ("TimerCudaAsync", "TimerHipAsync"):
            ob = os.path.join(d, t + ".o")
            objs.append(ob)
            jobs.append(base + ["-c", os.path.join(REPO, "src/timers", t + ".cpp"), "-o", ob])
    with cf.ThreadPoolExecutor(4) as ex:
        for rc, o in ex.map(_run, jobs):
            if rc:
                raise ToolError("build of variant %s failed:\n%s" % (variant, o[-4000:]))
    libs = []
    for dd, _, fs in os.walk(b):
        libs += [os.path.join(dd, f) for f in fs if f.startswith("libapollo")]
    rc, o = _run(base + objs + libs[:1] + ["-o", exe, "-rdynamic", "-ldl"]
                 + (["-Wl,--wrap=" + REGION_CTOR] if "KOKKOS" in dflags else []))
    if rc:
        raise ToolError("link failed:\n" + o[-3000:])
    open(stamp, "w").write(key)
    log("built %s in %.1fs" % (variant, time.time() - t0))
    return exe


# ------------------------------------------------------------------ runs
class Run:
    """One process: environment + script lines. `dir` shared between runs = same output directory."""

    def __init__(self, name, lines, env=None, dir=None, timeout=60, meta=None):
        self.name, self.lines, self.env, self.timeout = name, lines, env or {}, timeout
        self.dir = dir or name
        self.meta = meta or {}
        self.events, self.status, self.out, self.err, self.pid = None, None, "", "", 0

    def script(self, root):
        d = os.path.join(root, self.dir)
        lg = os.path.join(root, "log-" + self.name)
        s = ["run %s %s %d" % (d, lg, self.timeout)]
        s += ["env %s=%s" % (k, esc(v)) for k, v in sorted(self.env.items())]
        return "\n".join(s + self.lines + ["endrun"]) + "\n"

    def load(self, root):
        lg = os.path.join(root, "log-" + self.name)
        try:
            self.status, self.pid, _ = open(lg + ".fin").read().split()
        except (OSError, ValueError):
            raise ToolError("no result for run " + self.name)
        if self.status == "harness":
            raise ToolError("harness error in run %s (%s)" % (self.name, open(lg + ".fin").read()))
        ev = []
        if os.path.exists(lg):
            for l in open(lg, errors="replace"):
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    break
        self.events = ev
        self.out = open(lg + ".out", errors="replace").read() if os.path.exists(lg + ".out") else ""
        self.err = open(lg + ".err", errors="replace").read() if os.path.exists(lg + ".err") else ""


def esc(s):
    if s == "":
        return "-"
    return "".join(c if c.isalnum() or c in "_.,=/:+-@" and s != "-" else "%%%02x" % ord(c) for c in s)


class Scratch:
    """A scratch directory outside /repo and /verif, removed at exit."""

    def __init__(self, tag):
        self.path = tempfile.mkdtemp(prefix="vp-%s-" % tag, dir="/tmp")

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def execute(exe, runs, root, jobs=JOBS):
    """Runs all scripts (runs sharing a dir stay in order in one driver process)."""
    groups = {}
    for r in runs:
        groups.setdefault(r.dir, []).append(r)
    chunks = [[] for _ in range(jobs)]
    for i, g in enumerate(groups.values()):
        chunks[i % jobs].append(g)
    def one(i):
        if not chunks[i]:
            return 0, ""
        f = os.path.join(root, "scripts-%d" % i)
        with open(f, "w") as o:
            for g in chunks[i]:
                for r in g:
                    o.write(r.script(root))
        return _run([exe, f])
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, o in ex.map(one, range(jobs)):
            if rc:
                raise ToolError("driver failed rc=%s %s" % (rc, o[-2000:]))
    for r in runs:
        r.load(root)
    return runs


# ------------------------------------------------------------------ TLC
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"


def tlc(spec, cfg_text, workdir, extra=(), mem="3g", timeout=800, workers=1, files=None, check=True):
    """Runs TLC on SPEC (a module name in /verif/spec) with the given cfg text, in workdir."""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), workdir)
    for n, t in (files or {}).items():
        open(os.path.join(workdir, n), "w").write(t)
    cfg = os.path.join(workdir, "MC.cfg")
    open(cfg, "w").write(cfg_text)
    env = clean_env()
    env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (mem, workdir)
    p = subprocess.run(["tlc", "-metadir", os.path.join(workdir, "states"), "-workers", str(workers), "-noGenerateSpecTE",
                        "-config", cfg] + list(extra) + [os.path.join(workdir, spec + ".tla")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=workdir, timeout=timeout)
    return p.returncode, p.stdout


def tlc_stats(o):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    if m:
        return tuple(int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"states generated: ([\d,]+)|The number of states generated: ([\d,]+)", o)
    if m:
        v = int((m[-1][0] or m[-1][1]).replace(",", ""))
        return v, v
    return 0, 0


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []

    def add_mc(self, gen, dist):
        self.cov["states"] += dist
        self.cov["transitions"] += gen

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        d = os.path.join(OUT, self.prop)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "violation-%d.json" % len(self.violations))
        json.dump({"property": self.prop, "what": what, "replay": replay}, open(f, "w"), indent=1)
        self.violations.append((what, f))
        log("violation of %s: %s" % (self.prop, what))

    def finish(self):
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            for what, f in self.violations[:3]:
                log("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(f, VERIF)))
            return 1
        log("property %s held on everything explored (%s, %.1fs)" % (self.prop, ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, int)), ev["wall_s"]))
        return 0


HANGS = [0]


def mpirun(ranks, argv, d, env, timeout=60):
    """one MPI job: status and the end of its standard error. After four jobs that hung, others get
    less time; nothing of a hung job is left running."""
    p = subprocess.Popen(["mpirun", "--oversubscribe", "-np", str(ranks)] + argv, cwd=d, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        _, er = p.communicate(timeout=timeout if HANGS[0] < 4 else 10)
        return ("ok" if p.returncode == 0 else "failed"), er[-2000:]
    except subprocess.TimeoutExpired:
        HANGS[0] += 1
        p.terminate()                  # mpirun ends its ranks
        try:
            p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        return "hang", ""
