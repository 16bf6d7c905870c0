"""Checks C07 and C08: the multi-threaded engine and its shared tables."""
import concurrent.futures as cf
import collections, json, os, subprocess
import ddrun, ddscript, dd_checks, vf

UT_INV = ["Mutex", "NoDuplicates", "Kept", "Agree", "PreKept", "PoolsSeparate", "Linked"]
EV = {"call": 0, "try": 1, "locked": 2, "hit": 3, "miss": 4, "inserted": 5, "return": 6}


def ut_consts(**k):
    d = dict(NT=2, NK=2, NB=1, LEN=2, PreLen=1, Locking=True, Fine=True, Emitting=False)
    d.update(k)
    return d


def ut_line(i, tab, b, nb, legal):
    out = ["S", "%d" % i, tab, nb, int(legal), len(b["pre"])] + b["pre"] + [len(b["prog"]), len(b["prog"][0])]
    for p in b["prog"]:
        out += p
    out.append(len(b["hist"]))
    for t, e in b["hist"]:
        out += [t, EV[e]]
    return " ".join(str(x) for x in out)


def ut_run(exe, lines, workdir, name, seed, timeout):
    p, rep = os.path.join(workdir, name + ".txt"), os.path.join(workdir, name + ".rep")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run([exe, p, rep, str(seed)], cwd=workdir, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    if rc == 3:
        raise vf.Broken("ut_driver: " + out[-800:])
    bad, logs, followed, wished, ended, cur, done = [], [], 0, 0, 0, None, False
    for l in (open(rep) if os.path.exists(rep) else ()):
        w = l.rstrip("\n").split(" ", 3)
        if w[0] == "at":
            cur = w[1]
        elif w[0] == "bad":
            bad.append((w[1], w[2], w[3]))
        elif w[0] == "end":
            followed, wished, ended, cur = followed + int(w[2]), wished + int(w[3]), ended + 1, None
        elif w[0] == "log":
            logs.append(l[4:])
        elif w[0] == "done":
            done = True
    if not done:
        if cur is None and rc != "timeout" and rc >= 0:
            raise vf.Broken("ut_driver stopped (rc %s): %s" % (rc, out[-800:]))
        bad.append((cur or "?", "HANG" if rc == "timeout" else "CRASH", "the process %s (rc %s)" % (
            "did not return" if rc == "timeout" else "died", rc)))
    return bad, logs, followed, wished, ended


def c08(c):
    q = not vf.THOROUGH
    # ---- the model itself
    full = [("two", ut_consts()), ("three", ut_consts(NT=3, LEN=1)), ("buckets", ut_consts(NK=3, NB=2)),
            ("threetwo", ut_consts(NT=3, NK=2, PreLen=0))]
    if not q:
        full += [("two3", ut_consts(LEN=3, NK=3)), ("three2", ut_consts(NT=3, NK=2, PreLen=1)),
                 ("four", ut_consts(NT=4, LEN=1, NK=2)), ("threeb", ut_consts(NT=3, NK=2, NB=2, PreLen=1))]
    jobs = [dict(module="UniqueTable", consts=k, workdir=c.dir, tag=t, invariants=UT_INV, workers=2 if q else 8, heap="4g",
                 init="UInit", next_="UNext", timeout=3000) for t, k in full]
    jobs.append(dict(module="UniqueTable", consts=ut_consts(LEN=1), workdir=c.dir, tag="live", spec="Spec",
                     properties=["Terminates"], timeout=600))
    # the model without the lock must fail: the invariants can tell
    jobs.append(dict(module="UniqueTable", consts=ut_consts(LEN=1, Locking=False), workdir=c.dir, tag="nolock",
                     invariants=["Correct"], init="UInit", next_="UNext", expect_error=True))
    # ---- schedules: every legal one of 2 x 1 look-ups, random larger ones; illegal ones that end badly
    coarse = dict(Fine=False, Emitting=True)
    jobs.append(dict(module="UniqueTable", consts=ut_consts(LEN=1, PreLen=1, **coarse), workdir=c.dir, tag="legal",
                     invariants=["Emit"] + UT_INV, init="UInit", next_="UNext"))
    jobs.append(dict(module="UniqueTable", consts=ut_consts(LEN=1, PreLen=1, Locking=False, **coarse), workdir=c.dir, tag="illegal",
                     invariants=["EmitBad"], init="UInit", next_="UNext"))
    sim = 400 if q else 4000
    for t, k in (("legal3", dict(NT=3, LEN=2, NK=3, PreLen=2)), ("legalb", dict(NT=3, LEN=2, NK=4, NB=2, PreLen=2)),
                 ("legal24", dict(NT=2, LEN=4, NK=2, PreLen=1))):
        jobs.append(dict(module="UniqueTable", consts=ut_consts(**dict(k, **coarse)), workdir=c.dir, tag=t, invariants=["Emit"] + UT_INV,
                         init="UInit", next_="UNext", simulate=sim, depth=80, seed=vf.SEED * 77 + 5))
    for t, k in (("illegal3", dict(NT=3, LEN=1, NK=2, PreLen=1)), ("illegal24", dict(NT=2, LEN=3, NK=2, PreLen=0)),
                 ("illegal4", dict(NT=4, LEN=2, NK=3, PreLen=1))):
        jobs.append(dict(module="UniqueTable", consts=ut_consts(**dict(k, Locking=False, **coarse)), workdir=c.dir, tag=t, invariants=["EmitBad"],
                         init="UInit", next_="UNext", simulate=sim * 2, depth=80, seed=vf.SEED * 79 + 7))
    with cf.ThreadPoolExecutor(1) as bg:
        builds = bg.submit(lambda: vf.build_many([("ut%d" % b, ["@src/dd.cpp", "@src/task.cpp", "ut_driver.cpp"],
                                                   vf.variant(mt=True, buckets=b, alloc=a)) for b, a in ((1, 4), (3, 5))]))
        res = dict(zip([j["tag"] for j in jobs], vf.tlc_many(jobs, 6)))
        exes = builds.result()
    vf.log("explored and built")
    if not res["nolock"]["error"] or "Correct is violated" not in res["nolock"]["error"]:
        raise vf.Broken("the model without the lock satisfies the invariants")
    states = sum(r.get("distinct", r.get("generated", 0)) for r in res.values())
    legal, illegal = [], []
    for t, r in res.items():
        nb = 2 if t == "legalb" else 1
        seen = set()
        for b in r["emitted"]:
            key = json.dumps(b, sort_keys=True)
            if key not in seen:
                seen.add(key)
                (legal if t.startswith("legal") else illegal).append((nb, b))
    if not legal or not illegal:
        raise vf.Broken("no schedules")
    # ---- replay
    lines, src = [], {}
    for i, (isl, nb, b) in enumerate([(True,) + x for x in legal] + [(False,) + x for x in illegal]):
        for tab in (0, 1) if (i % 2 or not q) else (i // 2 % 2,):
            n = len(lines)
            lines.append(ut_line(n, tab, b, nb, isl))
            src[str(n)] = lines[-1]
    parts = 3
    reps = 1 if q else 4
    tally = collections.Counter()
    for rep in range(reps):
        with cf.ThreadPoolExecutor(parts) as ex:
            outs = list(ex.map(lambda i: ut_run(exes["ut1"], lines[i::parts], c.dir, "s%d-%d" % (rep, i), vf.SEED + i + 10 * rep, 200 if q else 2000), range(parts)))
        for bad, _, fol, wish, ended in outs:
            tally.update(followed=fol, wished=wish, ended=ended)
            for b in bad[:20]:
                c.violation("concurrent look-ups are not linearizable (%s): %s" % (b[1], b[2]),
                            "ut_driver (buckets=1) schedule, threads and events as in tools/mt_checks.py EV:\n" + src.get(b[0], b[0]))
    vf.log("replayed", dict(tally), "schedules", len(lines))
    # ---- free running
    fl, k = [], 0
    shapes = [(1, 2, 10, 4), (1, 3, 8, 3), (2, 3, 10, 8), (1, 4, 6, 6)]
    for nb, nt, ln, nk in shapes:
        for i in range(60 if q else 600):
            k += 1
            fl.append("F l%d %d %d %d %d %d %d 1" % (k, i % 2, nb, nt, ln, nk, (0, 255, 1023)[i % 3]))
    for nb, nt, ln, nk in ((1, 8, 4000, 12), (2, 6, 6000, 40), (1, 3, 6000, 5), (3, 8, 3000, 200)):
        for i in range(8 if q else 80):
            k += 1
            fl.append("F x%d %d %d %d %d %d %d 0" % (k, i % 2, nb, nt, ln, nk, (0, 1023, 65535)[i % 3]))
    logs = []
    for e in exes:
        with cf.ThreadPoolExecutor(2) as ex:
            outs = list(ex.map(lambda i: ut_run(exes[e], fl[i::2], c.dir, "f%s-%d" % (e, i), vf.SEED * 3 + i, 200 if q else 2000), range(2)))
        for bad, lg, fol, wish, ended in outs:
            tally.update(free=fol)
            logs += lg
            for b in bad[:20]:
                c.violation("concurrent look-ups are not linearizable (%s, %s): %s" % (e, b[1], b[2]),
                            "ut_driver %s seed %d input line: %s" % (e, vf.SEED, next((x for x in fl if x.split()[1] == b[0]), b[0])))
    vf.log("free run", len(logs), "logs")
    # ---- the logs against the abstract table
    np = 4
    tj = []
    docs = []
    for j, l in enumerate(logs):
        d = json.loads(l)
        d["id"] = str(j)
        docs.append(d)
    for p in range(np):
        f = os.path.join(c.dir, "logs%d.ndjson" % p)
        with open(f, "w") as fh:
            for d in docs[p::np]:
                fh.write(json.dumps(d) + "\n")
        tj.append(dict(module="LookupTrace", consts={"File": f}, workdir=c.dir, tag="trace%d" % p, invariants=["Explained"],
                       init="TInit", next_="TNext", timeout=900, heap="3g", workers=2))
    ok = set()
    for r in vf.tlc_many(tj, np):
        states += r.get("distinct", 0)
        ok |= {e["id"] for e in r["emitted"]}
    # the validator itself rejects a wrong log
    wrong = json.loads(json.dumps(docs[0]))
    wrong["id"], last = "0", [e for e in wrong["ev"] if e["k"] == "ret"][-1]
    last["node"] = 999
    f = os.path.join(c.dir, "wrong.ndjson")
    open(f, "w").write(json.dumps(wrong) + "\n")
    r = vf.tlc("LookupTrace", {"File": f}, c.dir, "wrong", invariants=["Explained"], init="TInit", next_="TNext")
    if r["emitted"]:
        raise vf.Broken("the log validator accepts a wrong log")
    for d in docs:
        if d["id"] not in ok:
            c.violation("no sequential order explains the results of concurrent look-ups", json.dumps(d))
    vf.log("validated")
    c.coverage = {
        "states": states, "transitions": tally["followed"] + tally["free"],
        "traces_validated_against_impl": tally["ended"] + len(docs), "evaluations": tally["followed"] + tally["free"],
        "distinct_nontrivial": len(legal) + len(illegal) + len(docs),
        "rule": "schedules of spec/UniqueTable.tla (every interleaving of two look-ups, random ones of up to four threads, and "
                "the ones that break the model without its lock) followed by real threads on both tables, and logs of free-running "
                "look-ups validated against spec/LookupTrace.tla; distinct schedules and logs",
        "samples": [json.dumps(legal[len(legal) // 2][1])[:300], json.dumps(illegal[0][1])[:300], json.dumps(docs[0])[:300]],
        "schedule_steps_wished": tally["wished"], "schedule_steps_followed": tally["followed"],
        "free_lookups": tally["free"],
    }
    c.assumptions = ["interleavings are sequentially consistent; hardware reorderings are only met by the free-running threads",
                     "bucket counts are shrunk by the QDD_VERIF hook so that values collide"]



TREES = {"narrow": ([[2, 3], [4], [], []], [1, 2, 3, 3]),
         "full": ([[2, 3], [4, 5], [6, 7], [], [], [], []], [1, 2, 3, 4, 5, 4, 5]),
         "equal": ([[2, 3], [4, 5], [6, 7], [], [], [], []], [1, 2, 2, 3, 4, 3, 4])}
MTOPS = ["new", "vgate", "vgate", "vgate", "mgate", "mlarge", "mapply", "mapply", "vadd", "mmul", "vkron"]
MTGC = MTOPS + ["gcv", "gcm", "measure"]
MTCL = ["new", "vgate", "vgate", "vgate", "vgate", "mgate", "mapply", "mapply", "mmul", "vkron", "gcv"]


def c07(c):
    import py_checks, pyrun
    q = not vf.THOROUGH
    jobs = []
    for n, (kids, keys) in TREES.items():
        for th in (2, 3) if q or n == "narrow" else (2, 3, 4):
            jobs.append(dict(module="ForkJoin", consts=dict(NThreads=th, Kids=kids, KeyOf=keys, Refetch=True), workdir=c.dir, workers=4,
                             heap="4g", tag="fj-%s%d" % (n, th), invariants=["RightAnswers", "WholeEntries", "OneOwner"], init="FInit",
                             next_="FNext", timeout=3000))
    jobs.append(dict(module="ForkJoin", consts=dict(NThreads=2, Kids=TREES["full"][0], KeyOf=TREES["full"][1], Refetch=True),
                     workdir=c.dir, tag="fj-live", spec="FSpec", properties=["AllAnswered"]))
    jobs.append(dict(module="ForkJoin", consts=dict(NThreads=2, Kids=TREES["full"][0], KeyOf=TREES["full"][1], Refetch=False),
                     workdir=c.dir, tag="fj-bad", invariants=["RightAnswers"], init="FInit", next_="FNext", expect_error=True))
    # behaviours of the sequential specification, for the parallel engine
    plan = [("n4", 1000, 14, 4, MTOPS, "general", False), ("n5", 300, 10, 5, MTOPS, "general", False),
            ("gc4", 800, 14, 4, MTGC, "general", False), ("cl4", 500, 14, 4, MTCL, "clifford", True)]
    with cf.ThreadPoolExecutor(3) as bg:
        eng = bg.submit(lambda: ddrun.engines(one=dict(mt=True, buckets=1, alloc=4), mid=dict(mt=True, buckets=61, alloc=16),
                                              big=dict(mt=True, buckets=2048, alloc=64)))
        pk = bg.submit(lambda: vf.pyqdd("pymt", c.dir, mt=True))
        model = bg.submit(lambda: vf.tlc_many(jobs, 3))
        traces, states = {}, 0
        for tag, num, depth, n, ops, mode, strict in plan:
            tr, st = ddrun.behaviours(c, tag, num if q else num * 10, depth, n, ops, mode=mode, timeout=3000)
            traces[tag] = tr
            states += st
        exes, pkg, res = eng.result(), pk.result(), model.result()
        states += sum(r.get("distinct", 0) for r in res)
    if not res[-1]["error"] or "RightAnswers is violated" not in res[-1]["error"]:
        raise vf.Broken("the model without re-fetching satisfies its invariant")
    vf.log("explored, generated and built")
    steps = moved = runs = 0
    lines = set()
    sets = [("one", "n4", 3, 300), ("one", "n5", 3, 300), ("mid", "n4", 2, 100), ("one", "gc4", 8, 100), ("big", "n5", 8, 30), ("big", "cl4", 4, 100), ("mid", "cl4", 12, 50), ("big", "gc4", 3, 0)]
    if not q:
        sets = [(e, t, th, j) for t in traces for e in exes for th in (2, 3, 5, 8, 12) for j in (0, 60, 300)]
    for e, tag, th, jit in sets:
        strict = tag == "cl4"
        fl = ["draws=0", "threads=%d" % th, "jitter=%d" % jit] + (["nodes", "repeat"] if strict else [])
        name = "%s-%s-%d-%d" % (tag, e, th, jit)
        bad, st, ended = ddrun.replay(c, exes[e], traces[tag], name, fl, strict=strict, parts=6, timeout=120 if q else 3000)
        steps += st
        runs += len(traces[tag])
        for f in os.listdir(c.dir):
            if f.startswith(name) and f.endswith(".rep"):
                for l in open(os.path.join(c.dir, f)):
                    if l.startswith("resumed "):
                        moved += int(l.split()[2])
        vf.log(name, st, "mismatches", len(bad), bad[0][1:4] if bad else "")
        for b in bad[:8]:
            c.violation("the engine with %d threads differs from the sequential result (%s): %s" % (th, b[3], ddrun.describe(traces[tag], b)),
                        "dd_driver (MT, %s) %s\n%s" % (e, " ".join(fl), ddscript.behaviour(b[0], traces[tag][b[0]], strict)))
        if any(b[3] == "HANG" for b in bad):
            break
    for tr in traces.values():
        dd_checks_add(lines, tr)
    # whole circuits through the Python package with worker threads, several schedulers in one process
    t = py_checks.Tally(c)
    w = t.wide("wide", 120, MinN=8, MaxN=24)
    a = t.circuits("static", 120, MaxQ=4)
    t.replay("C07", pkg, [dict(x, vary=dict(threads=[2, 8, 3, 10][i % 4])) for i, x in enumerate(py_checks.cases(w, "wcounts", 150) + py_checks.cases(a, "counts", 150))],
             "py", "a circuit run with worker threads")
    c.coverage = {
        "states": states + t.states, "transitions": steps, "traces_validated_against_impl": runs + t.runs, "evaluations": steps + t.runs,
        "distinct_nontrivial": len(lines) + len(t.distinct), "resumed_on_another_thread": moved,
        "rule": "spec/ForkJoin.tla exhaustively (task trees, 2 to 4 threads); behaviours of spec/DDEngine.tla replayed on engines with 2 to 12 "
                "threads, tables of 1 to 2048 buckets and random delays at the schedule points; circuits of spec/QCircuit.tla and "
                "spec/QWide.tla with worker threads through Python; distinct operations and circuits; random, seed %d" % vf.SEED,
        "samples": ["; ".join(ddscript.line(r)[:120] for r in traces["n4"][0]["t"][:5])] + t.samples[:2],
    }
    c.assumptions = ["schedules of the implementation are perturbed at random, not enumerated", "amplitudes are compared within 1e-9"]


def dd_checks_add(lines, traces):
    for t in traces:
        for r in t["t"]:
            if r["op"] in ("vgate", "mapply", "vadd", "mgate", "mmul"):
                lines.add(ddscript.line(r))


ALL = {"C07": (c07, "model_checking"), "C08": (c08, "model_checking")}
