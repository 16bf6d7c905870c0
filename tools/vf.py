"""Shared machinery of the checks: builds, TLC runs, evidence, verdicts."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QDD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()


class Broken(Exception):
    """The check itself could not run."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


def scratch(name):
    d = os.path.join(BUILD, "run", "%s-%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# --------------------------------------------------------------------------- builds
def _hash(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def repo_cxx():
    out = []
    for d in ("include", "include/algorithms", "src", "src/algorithms", "qdd"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            for f in os.listdir(p):
                if f.endswith((".h", ".hpp", ".cpp")):
                    out.append(os.path.join(p, f))
    return out


COMMON = ["-std=c++17", "-g", "-fPIC", "-DEIGEN_DONT_VECTORIZE", "-D_GUN_SOURCE",
          "-I" + REPO + "/include", "-I/usr/include/eigen3"]
MPI_INC = None


def mpi_flags():
    inc = sh(["mpicxx", "--showme:compile"]).stdout.split()
    lnk = sh(["mpicxx", "--showme:link"]).stdout.split()
    return inc, lnk


def table_flags(buckets, alloc):
    return ["-DQDD_VERIF", "-DQDD_VERIF_NBUCKETS=%d" % buckets, "-DQDD_VERIF_ALLOC=%d" % alloc]


def variant(mpi=False, mt=False, buckets=None, alloc=None, opt="-O1", extra=()):
    c = [opt] + list(extra)
    l = []
    if buckets:
        c += table_flags(buckets, alloc)
    if mpi:
        i, k = mpi_flags()
        c += ["-DisMPI"] + i
        l += ["-lboost_mpi", "-lboost_serialization"] + k
    if mt:
        c += ["-DisMT"]
        l += ["-ltbb", "-lboost_fiber", "-lboost_context", "-lpthread"]
    return c, l


def _compile(src, cflags, objdir):
    os.makedirs(objdir, exist_ok=True)
    deps = repo_cxx() + [os.path.join(HARNESS, f) for f in os.listdir(HARNESS) if f.endswith((".h", ".hpp"))]
    key = _hash(deps + [src], " ".join(COMMON + cflags))
    obj = os.path.join(objdir, os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + COMMON + cflags + ["-w", "-c", src, "-o", tmp])
        if r.returncode != 0:
            raise Broken("compilation of %s failed:\n%s" % (src, r.stdout[-3000:]))
        os.replace(tmp, obj)
    return obj


def build_many(specs):
    """specs: list of (name, [sources], (cflags, ldflags)); returns {name: path}.
    Sources starting with '@' are relative to the repository."""
    objdir = os.path.join(BUILD, "obj")
    jobs = {}
    for name, sources, (c, l) in specs:
        for s in sources:
            p = os.path.join(REPO, s[1:]) if s[0] == "@" else os.path.join(HARNESS, s)
            jobs[(p, tuple(c))] = None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {k: ex.submit(_compile, k[0], list(k[1]), objdir) for k in jobs}
        jobs = {k: f.result() for k, f in fut.items()}
    out = {}

    def link(name, sources, c, l):
        objs = []
        for s in sources:
            p = os.path.join(REPO, s[1:]) if s[0] == "@" else os.path.join(HARNESS, s)
            objs.append(jobs[(p, tuple(c))])
        key = _hash([], " ".join(objs + l))
        exe = os.path.join(BUILD, "bin", name + "." + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh(["g++"] + [f for f in c if f.startswith("-fsanitize") or f == "-shared"] + objs + ["-o", tmp] + l)
            if r.returncode != 0:
                raise Broken("linking %s failed:\n%s" % (name, r.stdout[-3000:]))
            os.replace(tmp, exe)
        return exe

    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {n: ex.submit(link, n, s, c, l) for n, s, (c, l) in specs}
        out = {n: f.result() for n, f in fut.items()}
    return out


PYTHON = "/opt/vp/venv/bin/python"


def pyqdd(name, where, mpi=False, mt=False, buckets=4096, alloc=256, extra=()):
    """Builds the Python extension from the repository; returns a directory for PYTHONPATH."""
    c, l = variant(mpi, mt, buckets, alloc, "-O1", extra)
    inc = sh([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'], sysconfig.get_config_var('EXT_SUFFIX'))"])
    pyinc, suffix = inc.stdout.split()
    c = c + ["-I" + pyinc, "-I/opt/vp/deps/pybind11-2.10.3/pybind11/include", "-fvisibility=hidden", "-shared"]
    lib = build_many([(name + suffix, ["@src/dd.cpp", "@qdd/bindings.cpp"] + (["@src/task.cpp"] if mt else []), (c, l))])[name + suffix]
    d = os.path.join(where, "py-" + name)
    pkg = os.path.join(d, "qdd")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(pkg)
    for f in os.listdir(os.path.join(REPO, "qdd")):
        if f.endswith(".py"):
            shutil.copy(os.path.join(REPO, "qdd", f), pkg)
    shutil.copy(lib, os.path.join(pkg, "pyQDD" + suffix))
    return d


# --------------------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v)) + "}"
    raise TypeError(v)


class Raw(str):
    """A TLA+ expression or operator name, used literally."""


def tlc(module, consts, workdir, tag, invariants=(), simulate=None, depth=None, seed=None,
        workers=1, heap="3g", timeout=600, properties=(), spec=None, defs="", deadlock=False,
        extra_files=(), postcondition=None, constraint=None, view=None, fp=None, expect_error=False,
        symmetry=None, action_constraint=None, extra_opts=(), init="Init", next_="Next"):
    """Run TLC on `module` with constant overrides; returns a dict with the output."""
    d = os.path.join(workdir, tag)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for src in extra_files:
        shutil.copy(src, d)
    mc = "MC_" + module
    body = ["---- MODULE %s ----" % mc, "EXTENDS " + module, defs]
    cfg = []
    if consts:
        cfg.append("CONSTANTS")
        for k, v in consts.items():
            if isinstance(v, Raw):
                cfg.append("  %s <- %s" % (k, v))
            elif isinstance(v, (list, tuple, set, frozenset)):
                body.append("mc_%s == %s" % (k, tla_value(v)))
                cfg.append("  %s <- mc_%s" % (k, k))
            else:
                cfg.append("  %s = %s" % (k, tla_value(v)))
    body.append("====")
    cfg += (["SPECIFICATION " + spec] if spec else ["INIT " + init, "NEXT " + next_])
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for p in properties:
        cfg.append("PROPERTY " + p)
    for key, v in (("POSTCONDITION", postcondition), ("CONSTRAINT", constraint), ("VIEW", view),
                   ("SYMMETRY", symmetry), ("ACTION_CONSTRAINT", action_constraint)):
        if v:
            cfg.append("%s %s" % (key, v))
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(os.path.join(d, mc + ".tla"), "w") as f:
        f.write("\n".join(body) + "\n")
    with open(os.path.join(d, mc + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    cp = TLA_JAR
    for j in ("CommunityModules-deps.jar", "CommunityModules.jar"):
        p = os.path.join(os.path.dirname(TLA_JAR), j)
        if os.path.exists(p):
            cp += ":" + p
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE", "-config", mc + ".cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if fp is not None:
        cmd += ["-fp", str(fp)]
    cmd += list(extra_opts) + [mc + ".tla"]
    out = os.path.join(d, "out.txt")
    try:
        with open(out, "w") as fh:
            r = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s took longer than %d s" % (module, timeout))
    text = open(out).read()
    res = {"rc": r.returncode, "out": text, "dir": d, "emitted": [], "printed": []}
    for line in text.splitlines():
        if line.startswith('"@@'):
            res["emitted"].append(json.loads(json.loads(line)[2:]))
        elif line.startswith('"') or line.startswith("<<"):
            res["printed"].append(line)
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
    if m:
        res["generated"], res["distinct"] = [int(x.replace(",", "")) for x in m.groups()]
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        res["generated"] = int(m.group(1))
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        res["depth"] = int(m.group(1))
    res["error"] = None
    if "Error:" in text or r.returncode not in (0,):
        lines = [l for l in text.splitlines() if not l.startswith('"@@')]
        k = next((i for i, l in enumerate(lines) if l.startswith("Error:")), max(0, len(lines) - 20))
        res["error"] = "\n".join(lines[k:k + 60])
        if not expect_error:
            raise Broken("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, res["error"][:4000]))
    return res


def tlc_many(jobs, parallel=None):
    """jobs: list of kwargs for tlc(); run concurrently, results in order."""
    with cf.ThreadPoolExecutor(parallel or JOBS) as ex:
        futs = [ex.submit(tlc, **j) for j in jobs]
        return [f.result() for f in futs]


def simulate(module, consts, workdir, tag, num, depth, invariants, parts=None, seed=None, heap="1500m",
             timeout=700, **kw):
    """`num` random behaviours, split over `parts` JVMs with seeds derived from the run's seed."""
    parts = parts or JOBS
    seed = SEED if seed is None else seed
    jobs = [dict(module=module, consts=consts, workdir=workdir, tag="%s-%d" % (tag, i), invariants=invariants,
                 simulate=(num + parts - 1) // parts, depth=depth, seed=seed * 1000003 + 7919 * i + 17,
                 heap=heap, timeout=timeout, **kw) for i in range(parts)]
    res = tlc_many(jobs, parts)
    traces = []
    for r in res:
        traces += r["emitted"]
    return traces, sum(r.get("generated", 0) for r in res)


# --------------------------------------------------------------------------- verdicts
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.coverage = {}
        self.assumptions = []
        self.violations = []        # (key, text, replay content)
        self.dir = scratch(pid)

    def violation(self, text, replay, key=None):
        self.violations.append((key, text, replay))

    def finish(self):
        known = dict(known_findings(self.pid))
        new = [v for v in self.violations if v[0] not in known]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, text in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        shutil.rmtree(self.dir, ignore_errors=True)
        if not new:
            print("OK property=%s %s" % (self.pid, {k: v for k, v in self.coverage.items() if isinstance(v, int)}))
            return 0
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        for i, (k, text, replay) in enumerate(new[:5]):
            p = os.path.join(BUILD, "replay", "%s-%d.txt" % (self.pid, i))
            with open(p, "w") as f:
                f.write("%s\n%s\n" % (text, replay))
            print("  " + text[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1


def main(fn, pid, level):
    """Run a check function; an exception is an error of the check (exit 2)."""
    try:
        c = Check(pid, level)
        fn(c)
        rc = c.finish()
    except Broken as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        rc = 2
    sys.exit(rc)
