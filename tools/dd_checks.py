"""Checks C01-C06: the sequential engine against spec/DDEngine.tla."""
import concurrent.futures as cf
import hashlib, json, os
import ddrun, ddscript, pyrun, vf

G = ddrun.GENERAL_OPS
CLIFF = ["new", "vgate", "vgate", "vgate", "vgate", "mgate", "mgate", "mlarge", "mmul", "mmul", "mkron", "mapply",
         "mapply", "vkron", "measure", "measureall", "query", "gcv", "gcm"]
OPS = {
    "C01": ["new", "vgate", "vgate", "vgate", "vgate", "vgate", "vgate", "vgate", "mgate", "mapply", "vadd", "measure", "gcv"],
    "C02": ["new", "vgate", "mgate", "mgate", "mgate", "mlarge", "mlarge", "mmul", "mmul", "madd", "mkron", "mkron",
            "mapply", "mapply", "vadd", "vkron", "gcm", "gcv"],
    "C03": G,
    "C04": ["new", "vgate", "vgate", "vgate", "mgate", "mgate", "mlarge", "mmul", "mmul", "madd", "mapply", "mapply",
            "vadd", "measure", "gcv", "gcv", "gcm", "gcm"],
    "C05": ["new", "vgate", "vgate", "vgate", "vgate", "vadd", "vkron", "mgate", "mapply", "measure", "measure", "measure",
            "measureall", "query", "query", "query", "gcv"],
    "C06": ["new", "vgate", "vgate", "vgate", "vadd", "vkron", "mgate", "mapply", "measure", "store", "store", "store",
            "store", "gcv"],
}
OWN = {
    "C01": lambda op, tag: op in ("vgate", "new", "loadv") and tag in ("VAL", "EXC", "CRASH", "HANG"),
    "C02": lambda op, tag: op in ("mgate", "mlarge", "mmul", "madd", "mkron", "mapply", "vadd", "vkron", "loadm")
                           and tag in ("VAL", "EXC", "CRASH", "HANG"),
    "C03": lambda op, tag: tag == "NODE",
    "C05": lambda op, tag: op in ("measure", "measureall", "query"),
    "C06": lambda op, tag: op in ("store", "load", "save"),
}
TITLE = {
    "C01": "amplitudes after a gate", "C02": "an operator or an operator result", "C03": "sharing or node structure",
    "C04": "a result after collection or with warm tables", "C05": "a measurement", "C06": "a stored or transmitted state",
}


class Tally:
    def __init__(self):
        self.lines, self.samples, self.behaviours, self.transitions, self.steps = set(), [], 0, 0, 0

    def add(self, traces, own):
        for t in traces:
            for r in t["t"]:
                if own(r["op"]):
                    self.lines.add(hashlib.md5(ddscript.line(r).encode()).digest()[:8])
        if traces:
            self.samples.append("; ".join(ddscript.line(r)[:160] for r in traces[len(traces) // 2]["t"][:6]))
        self.behaviours += len(traces)


def fresh_ok(c, exe, trace, b, flags, n):
    """Is the failing operation right when it is the first thing a process does?"""
    t, step, op, tag, text = b
    k = next((i for i, r in enumerate(trace["t"], 1) if i == step), None)
    if k is None:
        return True
    try:
        script = ddscript.minimal(trace["t"][k - 1], trace["t"][:k - 1])
        r = ddrun.run_script(exe, script, c.dir, "min%d" % n, vf.SEED, flags, 60)
    except (KeyError, vf.Broken):
        return True
    return not r["bad"]


def report(c, pid, exe, exename, traces, bad, flags, limit=40):
    own = OWN.get(pid)
    n = 0
    for b in bad:
        t, step, op, tag, text = b
        if pid == "C04":
            mine = op in ("gcv", "gcm") or tag == "KEEP"
            if not mine and tag in ("VAL", "EXC", "CRASH", "HANG", "MEAS"):
                n += 1
                mine = n <= limit and fresh_ok(c, exe, traces[t], b, flags, n)
        else:
            mine = own(op, tag)
        if mine:
            c.violation("%s is wrong (%s): %s" % (TITLE[pid], exename, ddrun.describe(traces[t], b)),
                        "script for %s %s:\n%s" % (exename, " ".join(flags),
                                                  ddscript.behaviour(t, traces[t], "nodes" in flags)), key=None)


def sweep(c, op, n, parts=4):
    consts = {"MaxN": n, "HV": 2, "HM": 1, "Depth": 2, "Mode": "general", "OpSet": ["vgate"], "Pick": vf.Raw("PickOne"),
              "SweepOp": op, "SweepN": n}
    r = vf.tlc("GateSweep", consts, c.dir, "sweep-%s-%d" % (op, n), invariants=["SweepEmit"], workers=1, seed=vf.SEED,
               init="SweepInit", next_="SweepNext", timeout=600)
    return r["emitted"], r["distinct"]


def run(pid):
    def fn(c):
        q = not vf.THOROUGH
        tal = Tally()
        opof = lambda op: {"C01": op in ("vgate", "new"), "C02": op[0] == "m" and op not in ("measure", "measureall") or op in ("vadd", "vkron"),
                           "C03": True, "C04": True, "C05": op in ("measure", "measureall", "query"), "C06": op == "store"}[pid]
        kinds = dict(small=dict(buckets=5, alloc=4), mid=dict(buckets=2048, alloc=64))
        if pid == "C06":
            kinds = {k: dict(v, mpi=True) for k, v in kinds.items()}
        elif not q:
            kinds["asan"] = dict(buckets=61, alloc=16, extra=("-fsanitize=address,undefined", "-fno-sanitize=alignment"))
        with cf.ThreadPoolExecutor(2) as ex:
            pkg = ex.submit(vf.pyqdd, "pympi" if pid == "C06" else "pyqdd", c.dir, pid == "C06")
            exes = ddrun.engines(**kinds)
            pkg = pkg.result()
        vf.log("built")
        states = 0
        jobs = []          # (name, traces, flags, strict, engines)
        flags = {"C01": [], "C02": [], "C03": ["repeat"], "C04": [], "C05": ["draws=400", "eigen"], "C06": []}[pid]
        if pid != "C05":
            flags = flags + ["draws=0"]
        if pid == "C01":
            for n in (2, 3) if q else (2, 3, 4):
                tr, st = sweep(c, "vgate", n)
                states += st
                jobs.append(("sweep%d" % n, tr, flags, False))
        if pid == "C02":
            for op, n in (("mgate", 2), ("mgate", 3), ("mlarge", 3)) + (() if q else (("mlarge", 4),)):
                tr, st = sweep(c, op, n)
                states += st
                jobs.append(("sweep-%s%d" % (op, n), tr, flags, False))
        vf.log("swept")
        # (num, depth, maxn)
        plan = {"C01": [(2000, 18, 3), (1000, 14, 4)], "C02": [(2400, 16, 3), (400, 12, 4)], "C03": [(1200, 18, 3)],
                "C04": [(3000, 22, 3)], "C05": [(2000, 18, 3), (800, 14, 4)], "C06": [(2000, 16, 3), (800, 14, 4)]}[pid]
        if not q:
            plan = [(n * 12, d + 6, m) for n, d, m in plan] + ([(1500, 14, 5)] if pid in ("C01", "C05", "C06") else [])
        for i, (num, depth, maxn) in enumerate(plan):
            tr, st = ddrun.behaviours(c, "b%d" % i, num, depth, maxn, OPS[pid], timeout=3000)
            states += st
            jobs.append(("random%d" % maxn, tr, flags, False))
        if pid == "C03":
            for maxn, num in ((3, 1600), (4, 1200)) if q else ((3, 20000), (4, 20000), (5, 2000)):
                tr, st = ddrun.behaviours(c, "cl%d" % maxn, num, 16, maxn, CLIFF, mode="clifford", timeout=3000)
                states += st
                jobs.append(("clifford%d" % maxn, tr, flags + ["nodes"], True))
        vf.log("generated")
        for name, tr, fl, strict in jobs:
            tal.add(tr, opof)
            tal.transitions += sum(len(t["t"]) for t in tr)
            for k, exe in exes.items():
                bad, steps, ended = ddrun.replay(c, exe, tr, name + "-" + k, fl, strict=strict, timeout=3000)
                tal.steps += steps
                report(c, pid, exe, k, tr, bad, fl)
                if bad:
                    vf.log(name, k, "mismatches", len(bad), bad[0][1:4], bad[0][4][:200])
        vf.log("replayed")
        if pid == "C06":
            cross_process(c, exes["mid"], jobs, tal)
            wide_states(c, pkg, tal)
        bound = bindings(c, pid, pkg, tal)
        vf.log("replayed through the bindings")
        c.coverage = {
            "states": states, "transitions": tal.transitions, "traces_validated_against_impl": tal.behaviours * len(exes) + bound,
            "through_the_python_bindings": bound,
            "evaluations": tal.steps, "distinct_nontrivial": len(tal.lines),
            "rule": "behaviours of spec/DDEngine.tla (random, seed %d) and exhaustive one-step sweeps of spec/GateSweep.tla, each "
                    "replayed through every build of the engine; a case is one operation with its operands' exact values, "
                    "non-trivial when it is an operation this property is about; distinct by arguments and exact answer" % vf.SEED,
            "samples": tal.samples[:4], "engines": sorted(exes),
        }
        c.assumptions = [
            "amplitudes are compared within 1e-9",
            "registers of at most 5 qubits; table sizes are shrunk by the QDD_VERIF hook to force collisions and collections",
        ]
    return fn


# what the pyQDD module exports of the engine
EXPORTED = ["new", "vgate", "vgate", "vgate", "mgate", "mgate", "mlarge", "mmul", "mapply", "mapply"]
BOUND = {"C01": ["new", "vgate", "vgate", "vgate"], "C02": ["mgate", "mlarge", "mmul", "mmul"], "C03": ["measure", "gcv", "gcm"],
         "C04": ["gcv", "gcm", "gcv", "gcm"], "C05": ["measure", "measureall", "query", "measure", "query"], "C06": ["store", "store", "store"]}
BOUND_OWN = {"C01": ("new", "vgate"), "C02": ("mgate", "mlarge", "mmul", "mapply"), "C03": ("new", "vgate", "mapply", "measure"), "C04": ("gcv", "gcm"),
             "C05": ("measure", "measureall", "query"), "C06": ("store",)}


def bindings(c, pid, pkg, tal):
    """Behaviours through the Python bindings alone (harness/py_engine.py)."""
    n = 0
    clifford = pid == "C03"
    plan = [(300, 16, 3), (100, 12, 4)] if not vf.THOROUGH else [(3000, 18, 3), (1200, 16, 4), (150, 10, 5)]
    for i, (num, depth, maxn) in enumerate(plan):
        tr, st = ddrun.behaviours(c, "py%d" % i, num, depth, maxn, EXPORTED + BOUND[pid], mode="clifford" if clifford else "general", timeout=3000)
        tal.transitions += sum(len(t["t"]) for t in tr)
        cases = [dict(mode="engine", t=t["t"], turn=j, strict=clifford) for j, t in enumerate(tr)]
        bad, k = pyrun.run_cases(c, pkg, cases, "py%d" % i, timeout=3000, np=1 if pid == "C06" else 0)
        tal.steps += sum(len(t["t"]) for t in tr)
        n += k
        for j, op, text in bad[:40]:
            structure = " nodes, the canonical diagram has " in text
            if op in ("CRASH", "HANG") or (structure if clifford else op in BOUND_OWN[pid] and not structure):
                c.violation("%s is wrong (Python bindings): %s" % (TITLE[pid], text), json.dumps(cases[j]))
    return n


def wide_states(c, pkg, tal):
    """States of 20 to 100 qubits are saved, loaded and worked on (spec/QBlocks.tla, spec/QSums.tla)."""
    import py_checks as P
    tr = P.Tally(c).blocks("wide", 40, "engine") + P.Tally(c).sums("sums", 24, "engine")
    cases = [dict(mode="wengine", circ=x, turn=3 * i, patience=60, strict=False, slack=2 * x["eng"]["nodes"] + 50, operator=False, save=True) for i, x in enumerate(tr)]
    bad, k = pyrun.run_cases(c, pkg, cases, "wide", np=1)
    tal.behaviours += k
    for i, tag, text in bad:
        c.violation("a wide state that was saved and loaded is wrong: %s: %s" % (tag, text), json.dumps(cases[i]))


def cross_process(c, exe, jobs, tal):
    """Every final state of some behaviours is saved by one process and loaded by another."""
    name, traces, fl, _ = jobs[-1]
    n = 0
    finals = []
    d = os.path.join(c.dir, "x")
    os.makedirs(d, exist_ok=True)
    save, load = [], []
    for t, tr in enumerate(traces[:600]):
        V, M = ddscript.handles(tr["t"])
        out = ["T %d" % t] + [ddscript.line(r) for r in tr["t"]]
        lo = ["T %d" % t]
        for h, v in sorted(V.items()):
            f = "%s/s%d_%d" % (d, t, h)
            out.append("save %d %s" % (h, f))
            lo.append(" ".join(str(x) for x in ["load", h, f] + ddscript.val(v)))
            n += 1
        save += out + ["E"]
        load += lo + ["E"]
    r1 = ddrun.run_script(exe, "\n".join(save) + "\n", c.dir, "xsave", 3, fl)
    r2 = ddrun.run_script(exe, "\n".join(load) + "\n", c.dir, "xload", 4, fl)
    tal.steps += r1["steps"] + r2["steps"]
    stopped = {b[0] for b in r1["bad"]}
    for b in r1["bad"] + [x for x in r2["bad"] if x[0] not in stopped]:
        if b[2] in ("load", "save", "store"):
            c.violation("a state saved by one process and loaded by another is wrong: behaviour %d: %s" % (b[0], b[4]),
                        ddscript.behaviour(b[0], traces[b[0]], False))


ALL = {p: (run(p), "model_checking") for p in OPS}
