"""Checks C09-C11: states distributed over processes."""
import concurrent.futures as cf
import collections, json, os, signal, subprocess, tempfile
import ddrun, ddscript, pyrun, vf

MPIRUN = ["mpirun", "--oversubscribe", "--mca", "btl", "self,vader", "--mca", "mpi_yield_when_idle", "1"]
GATES = ["dnew", "dgate", "dgate", "dgate", "dgate", "dgate", "dgate", "mgate", "mlarge", "mlarge", "mmul", "dapply", "dapply", "dadd", "dgcv", "gcm", "dmeasure"]
MEAS = ["dnew", "dgate", "dgate", "dgate", "dgate", "mgate", "dapply", "dmeasure", "dmeasure", "dquery", "dquery", "dquery", "dgcv"]


def mpi_env():
    return dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1")


def run_group(cmd, cwd, env, timeout):
    """Run a command in a process group of its own; kill the whole group on a timeout."""
    with tempfile.TemporaryDirectory(prefix="qm", dir="/tmp", ignore_cleanup_errors=True) as d:     # runs at the same time must not share it
        return run_in(cmd, cwd, dict(env, OMPI_MCA_orte_tmpdir_base=d), timeout)


def run_in(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        try:
            out = p.communicate(timeout=10)[0]
        except subprocess.TimeoutExpired:
            out = b""
        return "timeout", (out or b"").decode(errors="replace")


def run_script(exe, np, script, workdir, name, seed, flags, timeout):
    p, rep = os.path.join(workdir, name + ".txt"), os.path.join(workdir, name + ".rep")
    with open(p, "w") as f:
        f.write(script)
    rc, out = run_group(MPIRUN + ["-np", str(np), exe, p, rep, str(seed)] + list(flags), workdir, mpi_env(), timeout)
    if rc == 3:
        raise vf.Broken("driver rejected its script: " + out[-1500:])
    res = {"bad": [], "ended": 0, "steps": 0}
    seen, undone = set(), []
    for r in range(np):
        f = rep if np == 1 else "%s.%d" % (rep, r)
        cur = op = None
        step, done = 0, False
        for l in (open(f) if os.path.exists(f) else ()):
            w = l.rstrip("\n").split(" ", 5)
            if w[0] == "begin":
                cur, step, op = int(w[1]), 0, None
            elif w[0] == "at":
                step, op = int(w[1]), w[2]
            elif w[0] == "end":
                if r == 0:
                    res["ended"] += 1
                    res["steps"] += int(w[2])
                cur = None
            elif w[0] == "bad":
                b = (int(w[1]), int(w[2]), w[3], w[4], "rank %d of %d: %s" % (r, np, w[5] if len(w) > 5 else ""))
                if b[:4] not in seen:
                    seen.add(b[:4])
                    res["bad"].append(b)
            elif w[0] == "done":
                done = True
        if not done:
            undone.append((cur, step, op))
    if undone:
        if all(u[0] is None for u in undone) and rc != "timeout" and not res["bad"] and res["ended"] == 0:
            raise vf.Broken("mpirun failed (rc %s): %s" % (rc, out[-1500:]))
        u = min(undone, key=lambda x: (x[0] is None, x[0] or 0, x[1]))
        res["bad"].append((-1 if u[0] is None else u[0], u[1], u[2], "HANG" if rc == "timeout" else "CRASH",
                           "%d processes %s (rc %s) %s" % (np, "did not return" if rc == "timeout" else "crashed", rc,
                                                           "" if rc == "timeout" else out[-300:].replace("\n", " "))))
        res["crashed"] = res["bad"][-1][0]
    return res


def replay(c, exe, np, traces, name, flags, timeout):
    parts = max(1, min(8 // np, len(traces)))
    chunks = [list(range(i, len(traces), parts)) for i in range(parts)]

    def one(i):
        idx, bad, steps, ended, rnd = chunks[i], [], 0, 0, 0
        while idx and rnd < 4:
            script = "".join(ddscript.distributed(t, traces[t]) for t in idx)
            r = run_script(exe, np, script, c.dir, "%s-%d-%d" % (name, i, rnd), vf.SEED * 131 + i * 100 + rnd * 1000, flags, timeout)
            bad += [(idx[0],) + b[1:] if b[0] == -1 else b for b in r["bad"]]
            steps += r["steps"]
            ended += r["ended"]
            if r.get("crashed") not in idx or any(b[3] == "HANG" for b in r["bad"]):
                break
            idx = idx[idx.index(r["crashed"]) + 1:]
            rnd += 1
        return bad, steps, ended

    with cf.ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(one, range(parts)))
    return sorted(b for r in res for b in r[0]), sum(r[1] for r in res), sum(r[2] for r in res)


def protocol(q):
    jobs = []
    for sch in ("ring", "bcast"):
        for size, local in [(0, 2), (1, 2), (2, 2)] + ([(3, 1)] if not q or sch == "ring" else []):
            jobs.append(dict(module="BlockApply", consts=dict(Size=size, Local=local, Scheme=sch), tag="ba-%s%d" % (sch, size),
                             invariants=["Right", "Complete", "NoDeadlock"], init="BInit", next_="BNext", workers=4, heap="5g", timeout=3000))
        jobs.append(dict(module="BlockApply", consts=dict(Size=2, Local=1, Scheme=sch), tag="ba-live-" + sch, spec="BSpec", properties=["Ends"]))
    return jobs


def dist(pid):
    def fn(c):
        q = not vf.THOROUGH
        jobs = [dict(j, workdir=c.dir) for j in protocol(q)] if pid == "C09" else []
        ops = GATES if pid == "C09" else MEAS
        num = {("C09", 1): 160, ("C09", 2): 560, ("C09", 4): 440, ("C09", 8): 120,
               ("C10", 1): 160, ("C10", 2): 400, ("C10", 4): 320, ("C10", 8): 100}
        with cf.ThreadPoolExecutor(3) as bg:
            eng = bg.submit(lambda: ddrun.engines(small=dict(mpi=True, buckets=5, alloc=4), mid=dict(mpi=True, buckets=2048, alloc=64)))
            model = bg.submit(lambda: sum(r["distinct"] for r in vf.tlc_many(jobs, 3)))
            states, traces = 0, {}
            for np, lo, hi in ((1, 1, 4), (2, 2, 4), (4, 3, 4 if q else 5), (8, 4, 5)):
                n = num[pid, np] * (1 if q else 10)
                consts = {"MaxN": hi, "MinN": lo, "HV": 3, "HM": 2, "Depth": 16, "Mode": "general", "OpSet": ops, "Pick": vf.Raw("PickOne")}
                tr, st = vf.simulate("DDist", consts, c.dir, "d%d" % np, n, 17, ["DEmitted"], init="DInit", next_="DNext", timeout=3000)
                traces[np] = tr
                states += st
            bound = {}
            for np, lo, hi, n in ((2, 2, 4, 60), (4, 3, 4, 40)):
                consts = {"MaxN": hi, "MinN": lo, "HV": 3, "HM": 2, "Depth": 14, "Mode": "general", "OpSet": [o for o in ops if o != "dadd"], "Pick": vf.Raw("PickOne")}
                bound[np], st = vf.simulate("DDist", consts, c.dir, "p%d" % np, n if q else n * 15, 15, ["DEmitted"], init="DInit", next_="DNext", timeout=3000)
                states += st
            exes = eng.result()
            pkg = vf.pyqdd("pympi", c.dir, mpi=True)
            states += model.result()
        vf.log("explored, generated and built")
        steps = runs = 0
        lines, kinds, samples = set(), collections.Counter(), []
        own = (lambda op: op in ("dgate", "dapply", "dnew", "dadd")) if pid == "C09" else (lambda op: op in ("dmeasure", "dquery"))
        hang = False
        for np, tr in traces.items():
            for t in tr:
                for r in t["t"]:
                    if own(r["op"]):
                        lines.add((np, ddscript.line(r)))
                        kinds["%d:%s%s" % (np, r["op"], ":" + r["kind"] if "kind" in r else ":" + r["sch"] if "sch" in r else "")] += 1
            samples.append("np=%d %s" % (np, "; ".join(ddscript.line(r)[:100] for r in tr[0]["t"][:4])))
            for e, exe in exes.items():
                if hang:
                    break
                fl = ["draws=%d" % (0 if pid == "C09" else 120 if np < 8 else 80)]
                bad, st, ended = replay(c, exe, np, tr, "np%d-%s" % (np, e), fl, 90 if q else 2400)
                steps += st
                runs += ended
                vf.log("np", np, e, st, "mismatches", len(bad), bad[0][1:] if bad else "")
                for b in bad[:10]:
                    mine = own(b[2]) or (pid == "C09" and b[2] is not None and b[2] not in ("dmeasure", "dquery"))
                    hang = hang or b[3] == "HANG"
                    if mine or b[2] is None:
                        c.violation("on %d processes %s is wrong (%s): %s" % (np, "a distributed state" if pid == "C09" else "a distributed measurement", e,
                                                                             ddrun.describe(tr[b[0]], b)),
                                    "mpirun -np %d dd_driver (MPI, %s) %s\n%s" % (np, e, " ".join(fl), ddscript.distributed(b[0], tr[b[0]])))
        for np, tr in () if hang else bound.items():
            cases = [dict(mode="engine", t=t["t"], turn=j) for j, t in enumerate(tr)]
            bad, k = pyrun.run_cases(c, pkg, cases, "py%d" % np, timeout=90 if q else 2400, np=np)
            runs += k
            steps += sum(len(t["t"]) for t in tr)
            vf.log("bindings np", np, k, "mismatches", len(bad))
            for j, op, text in bad[:10]:
                if own(op) or op in ("CRASH", "HANG") or (pid == "C09" and op not in ("dmeasure", "dquery")):
                    c.violation("on %d processes %s is wrong (Python bindings): %s" % (np, "a distributed state" if pid == "C09" else "a distributed measurement", text),
                                json.dumps(cases[j]))
        c.coverage = {"states": states, "transitions": steps, "traces_validated_against_impl": runs, "evaluations": steps,
                      "distinct_nontrivial": len(lines), "samples": samples, "by_kind": dict(kinds),
                      "rule": "behaviours of spec/DDist.tla on registers of 1 to 5 qubits replayed on 1, 2, 4 and 8 processes, every "
                              "process compares its slice after every operation" +
                              ("; spec/BlockApply.tla exhaustively" if pid == "C09" else "; distinct operations with their exact answers")
                              + "; random, seed %d" % vf.SEED}
        c.assumptions = ["every process owns at least one qubit", "amplitudes are compared within 1e-9"]
    return fn


OPTIONS = [dict(use_mpi=True, use_auto_swap=a, swap_ver=v, use_bcast=b)
           for a, v in ((False, "v1"), (True, "v1"), (True, "v2")) for b in (False, True)]


def c11(c):
    import py_checks as P
    q = not vf.THOROUGH
    t = P.Tally(c)
    jobs = []
    for sch in ("v1", "v2", "any"):
        for n, g, l in ((3, 1, 3), (4, 2, 3), (4, 1, 3)) if sch != "any" else ((4, 1, 2),):
            jobs.append(dict(module="Relocate", consts=dict(N=n, G=g, Scheme=sch, Len0=l if q or n == 4 else l + 1, Shots=2), tag="rel-%s%d%d" % (sch, n, g),
                             invariants=["TypeOK", "Tracked", "Restored"], workers=2, workdir=c.dir, timeout=3000))
    with cf.ThreadPoolExecutor(2) as bg:
        lib = bg.submit(lambda: vf.pyqdd("pympi", c.dir, mpi=True))
        rel = bg.submit(lambda: sum(r["distinct"] for r in vf.tlc_many(jobs, 3)))
        gate = ["gate", "gate", "mix", "clifford", "unitary"]
        sv = t.circuits("sv", 400, MaxQ=5, MaxC=0, FinalMeas="none", MaxBranches=1, Kinds=gate + ["call"], Len0=4, Len1=12)
        st = t.circuits("st", 260, MaxQ=5, MaxC=5, Kinds=gate + ["barrier"], Len0=3, Len1=10)
        dy = t.circuits("dy", 400, **dict(P.DYN, MaxQ=5, Len0=3, Len1=14))
        bl = t.blocks("bl", 20, "counts", Len1=12) + t.sums("sl", 12, "counts", MaxN=32, Len1=16, MaxAcc=3)
        bd = t.blocks("bd", 20, "counts", **dict(P.BDYN, Len1=12)) + t.sums("sd", 12, "counts", MaxN=32, **dict(P.SDYN, Len1=16, MaxAcc=3))
        t.states += rel.result()
        pkg = lib.result()
    vf.log("explored, generated and built")
    shots = 60
    for np in (2, 4):
        fit = lambda tr: [x for x in tr if 2 ** x["n"] > np]
        opt = lambda cs, k: [dict(x, opts=OPTIONS[(i + k) % len(OPTIONS)]) for i, x in enumerate(cs)]
        t.replay("C11", pkg, opt(P.cases(fit(sv), "sv"), 0), "sv%d" % np, "final state on %d processes" % np, np=np)
        t.replay("C11", pkg, opt(P.cases(fit(dy), "counts", shots), 1), "dy%d" % np, "counts of a dynamic circuit on %d processes" % np, np=np)
        t.replay("C11", pkg, opt(P.cases(fit(st), "counts", 200), 2), "st%d" % np, "counts of a static circuit on %d processes" % np, np=np)
        t.replay("C11", pkg, opt(P.cases([x for x in fit(st) if P.final_only(x) and any(i["op"] == "measure" for i in x["prog"])], "exact", must=1), 3), "ex%d" % np,
                 "exact probabilities on %d processes" % np, np=np)
        t.replay("C11", pkg, opt(P.cases(bl + bd, "bcounts", 100), 2), "bl%d" % np, "counts of up to 100 qubits on %d processes" % np, np=np)
    # a merged operator does not travel to the other processes (known finding): nothing but that refusal, or the right answer
    ops = opt(P.cases([x for x in sv if 2 ** x["n"] > 2 and any(i["op"] == "call" for i in x["prog"])][:3 if q else 30], "sv", calls="qdd"), 4)
    for i, tag, text in pyrun.run_cases(c, pkg, ops, "op2", np=2)[0]:
        c.violation("merged operator on 2 processes: %s: %s" % (tag, text), json.dumps(ops[i]),
                    key="operator-not-sent" if tag == "REJECT" and "cannot pickle" in text and "mEdge" in text else None)
    t.done("circuits of spec/QCircuit.tla on 2 to 5 qubits, static and dynamic, run by the backend on 2 and 4 processes with every "
           "combination of relocation scheme and communication scheme; spec/Relocate.tla exhaustively (3 and 4 qubits, 1 or 2 far "
           "positions, two shots); random, seed %d" % vf.SEED,
           ["the package's mpi4py calls are served by harness/mpishim over the installed Open MPI"])


ALL = {"C09": (dist("C09"), "model_checking"), "C10": (dist("C10"), "model_checking"), "C11": (c11, "model_checking")}
