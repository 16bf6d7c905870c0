"""Checks of the Python package: C12-C20 (C11 is in mpi_checks)."""
import collections, json, os
import vf, pyrun

Q = not vf.THOROUGH
BASE = dict(MaxQ=4, MaxC=4, Len0=2, Len1=12, Kinds=["gate", "gate", "mix"], CondP=0, OpenCtrl=False, FinalMeas="all",
            MaxBranches=16, GateNames=vf.Raw("QNames"), Pick=vf.Raw("PickOne"))
SESSION = dict(BASE, MaxQ=3, MaxC=3, Len0=2, Len1=6, MaxBranches=8, NLib=3, NPar=3, NJobs=4, MaxEntries=3, JobKinds=["run"], Bads=set(["shots0"]))
BADS = set("shots0 shotsneg shotsbig nomeas unbound nobinds length unsup_gate unsup_init unsup_ifelse unsup_delay "
           "unsup_custom unsup_cond unsup_loop".split())
MANY = 1 if Q else 12


class Tally:
    def __init__(self, c):
        self.c, self.states, self.traces, self.runs = c, 0, 0, 0
        self.kinds, self.distinct, self.samples = collections.Counter(), set(), []

    def circuits(self, tag, num, depth=40, invs=("Emitted", "TotalOne", "AllPossible"), **over):
        tr, st = vf.simulate("QCircuit", {**BASE, **over}, self.c.dir, tag, num * MANY, depth, list(invs), timeout=2400)
        self.states += st
        self.traces += len(tr)
        for t in tr:
            for i in t["prog"]:
                self.kinds[i.get("name", i["op"]) + ("?" if i["cond"]["kind"] != "none" else "")] += 1
        return tr

    def sessions(self, tag, num, depth=240, **over):
        tr, st = vf.simulate("QJobs", {**SESSION, **over}, self.c.dir, tag, num * MANY, depth, ["JEmitted", "WellFormed", "AllPossible"],
                             init="JInit", next_="JNext", timeout=2400)
        self.states += st
        self.traces += len(tr)
        for t in tr:
            for j in t["jobs"]:
                self.kinds[j["kind"] + (":" + j["bad"] if j["bad"] else "")] += 1
        return tr

    def wide(self, tag, num, depth=60, **over):
        tr, st = vf.simulate("QWide", {**WIDE, **over}, self.c.dir, tag, num * MANY, depth, ["Emitted", "Sound"], timeout=2400)
        self.states += st
        self.traces += len(tr)
        for t in tr:
            for i in t["prog"]:
                self.kinds[i.get("name", i["op"])] += 1
        return tr

    def blocks(self, tag, num, mode, **over):
        tr, st = vf.simulate("QBlocks", {**BLOCKS, "Mode": mode, **over}, self.c.dir, tag, num * MANY, 40, ["BEmitted", "Partition", "AllWhole"],
                             init="BInit", next_="BNext", timeout=2400)
        self.states += st
        self.traces += len(tr)
        for t in tr:
            for i in t["prog"]:
                self.kinds[i.get("name", i["op"]) + ("?" if i["cond"]["kind"] != "none" else "")] += 1
        return tr

    def sums(self, tag, num, mode, **over):
        tr, st = vf.simulate("QSums", {**SUMS, "Mode": mode, **over}, self.c.dir, tag, num * MANY, 60,
                             ["SEmitted", "Normed", "WellPlaced"] + ["SmallDiagram"] * (mode == "engine"), init="SInit", next_="SNext", timeout=2400)
        self.states += st
        self.traces += len(tr)
        for t in tr:
            for i in t["prog"]:
                self.kinds[i.get("name", i["op"]) + ("?" if i["cond"]["kind"] != "none" else "")] += 1
        return tr

    def replay(self, pid, pkg, cases, name, what, key=None, timeout=1800, env=None, np=0):
        bad, n = pyrun.run_cases(self.c, pkg, cases, name, timeout=timeout, env=env, np=np)
        self.runs += n
        for x in cases:
            self.distinct.add(json.dumps([x.get("mode"), x.get("circ", x.get("jobs"))], sort_keys=True)[:2000])
        if len(self.samples) < 4 and cases:
            s = cases[len(cases) // 2]
            self.samples.append(json.dumps({k: (v if k != "circ" else {"n": v["n"], "prog": v["prog"][:3]})
                                            for k, v in s.items() if k not in ("lib", "jobs")}, sort_keys=True)[:300])
        vf.log(name, n, "mismatches", len(bad), bad[0][1:3] if bad else "")
        for i, tag, text in bad[:20]:
            self.c.violation("%s: %s: %s" % (what, tag, text), json.dumps(cases[i]))

    def done(self, rule, assumptions=()):
        self.c.coverage = {"states": self.states, "traces_validated_against_impl": self.traces, "evaluations": self.runs,
                           "distinct_nontrivial": len(self.distinct), "rule": rule, "samples": self.samples,
                           "by_kind": dict(self.kinds.most_common(60))}
        self.c.assumptions = ["a frequency is accepted while its exact binomial p-value is at least 1e-10; exact values are compared within 1e-9",
                              "qiskit's own circuit objects, transpiler and result classes are trusted"] + list(assumptions)


BLOCKS = dict(BASE, Kinds=["gate"], OpenCtrl=True, Len0=6, Len1=24, MinN=20, MaxN=100, MaxJoined=4,
              Steps=["layer", "local", "local", "local", "local", "local", "swap", "ctrl"])
BDYN = dict(CondP=5, Steps=["layer", "local", "local", "dyn", "dyn", "swap", "ctrl"])
SUMS = dict(BASE, Kinds=["gate"], OpenCtrl=True, FinalMeas="all", Len0=8, Len1=40, MinN=12, MaxN=60, MaxAcc=4, MaxEarly=0,
            Steps=["turn", "turn", "diag", "flip", "swap", "add", "add", "add", "add", "addc", "back", "phase", "phase"])
SDYN = dict(MaxEarly=4, Steps=["turn", "turn", "diag", "flip", "swap", "add", "add", "addc", "back", "phase", "measure", "measure", "addif", "addif"])
BCLIFFORD = dict(GateNames=set("h id sdg s sxdg sx x y z cx cy cz swap iswap".split()), Steps=["layer", "local", "local", "local", "swap"])
WIDE = dict(MinN=12, MaxN=60, MaxC=6, Len0=6, Len1=24, MaxTerms=8, Mode="counts", Pick=vf.Raw("PickOne"))


def cases(tr, mode, shots=256, **kw):
    return [dict(mode=mode, circ=t, shots=shots, split=[0, 1, 2, "loose", "bits"][i % 5], **kw) for i, t in enumerate(tr)
            if mode != "counts" or any(x["op"] == "measure" for x in t["prog"])]


def c12(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.circuits("static", 700)
    b = t.circuits("over", 500, FinalMeas="some", Kinds=["gate", "mix", "barrier"], Len1=8)
    t.replay("C12", pkg, cases(a, "counts", 300) + cases(b, "counts", 300), "counts", "counts of a circuit with final measurements")
    w = t.wide("wide", 300)
    t.replay("C12", pkg, cases(w, "wcounts", 200), "wide", "counts of a wide register")
    d = t.blocks("blocks", 120, "counts")
    t.replay("C12", pkg, cases(d, "bcounts", 300), "blocks", "counts of a register of up to 100 qubits")
    d = t.sums("sums", 100, "counts")
    t.replay("C12", pkg, cases(d, "bcounts", 300), "sums", "counts of a wide entangled register")
    far_branches(c, t, pkg)
    t.done("circuits of spec/QCircuit.tla with all measurements at the end (registers split in up to 4 classical and 2 quantum registers, "
           "a classical bit may be written twice), of spec/QWide.tla (12 to 60 qubits, sparse states) and of spec/QBlocks.tla (20 to 100 "
           "qubits, products of blocks) and spec/QSums.tla (12 to 60 qubits, one of them a sum of others), random, seed %d" % vf.SEED)


def far_branches(c, t, pkg):
    """Two branches whose amplitudes differ by more than the engine resolves, each as likely as the other (known finding)."""
    cs = [dict(mode="branches", n=n, shots=400, gate=g) for n in (12, 30, 60, 80, 92, 99) for g in ("h", "ry")]
    bad, n = pyrun.run_cases(c, pkg, cs, "branches")
    t.runs += n
    for i, tag, text in bad:
        c.violation("a branch with tiny amplitudes: %s: %s" % (tag, text), json.dumps(cs[i]),
                    key="tiny-amplitudes" if tag == "FREQ" and cs[i]["n"] > 84 else None)


DYN = dict(Kinds=["mix", "clifford", "gate", "measure", "measure", "reset"], CondP=5, FinalMeas="some")


def c13(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.circuits("dyn", 900, **DYN)
    b = t.circuits("cond", 700, **dict(DYN, MaxQ=3, Kinds=["mix", "measure", "clifford", "measure"], CondP=8))
    d = t.circuits("reset", 400, **dict(DYN, MaxQ=3, Kinds=["mix", "reset", "clifford", "measure"], CondP=3))
    t.replay("C13", pkg, cases(a + b + d, "counts", 200), "counts", "counts of a dynamic circuit")
    e = t.blocks("blocks", 100, "counts", **BDYN)
    t.replay("C13", pkg, cases(e, "bcounts", 300), "blocks", "counts of a dynamic circuit on up to 100 qubits")
    e = t.sums("sums", 80, "counts", **SDYN)
    t.replay("C13", pkg, cases(e, "bcounts", 300), "sums", "counts of a wide entangled register measured in between")
    t.done("dynamic circuits of spec/QCircuit.tla and, on 20 to 100 qubits, of spec/QBlocks.tla and spec/QSums.tla (mid-circuit measurement, reset, gates and measurements conditioned on a bit "
           "or register), random, seed %d" % vf.SEED)


def final_only(circ):
    """Every measurement is final: nothing but measurements and barriers follow, nothing is conditional or reset."""
    seen = set()
    for i in circ["prog"]:
        if i["cond"]["kind"] != "none" or i["op"] == "reset":
            return False
        if i["op"] == "measure":
            seen.add(i["q"][0])
        elif i["op"] != "barrier" and seen & set(i["q"]):
            return False
    return True


def c14(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.circuits("static", 700)
    b = t.circuits("over", 600, FinalMeas="some", Kinds=["gate", "mix", "barrier"], Len1=8)
    d = t.circuits("dyn", 700, **dict(DYN, Len1=6))
    e = t.circuits("after", 500, **dict(BASE, MaxQ=3, Kinds=["gate", "gate", "measure"], FinalMeas="some", Len0=3, Len1=6,
                                        GateNames={"swap", "iswap", "cswap", "rxx", "ryy", "rzx", "rzz", "h", "x", "cx", "ry"}))
    cs = []
    for x in cases(a + b + d + e, "exact"):
        if any(i["op"] == "measure" for i in x["circ"]["prog"]):
            x["must"] = final_only(x["circ"])
            cs.append(x)
    t.replay("C14", pkg, cs, "exact", "exact probabilities")
    w = t.wide("wide", 100, MinN=8, MaxN=14)
    t.replay("C14", pkg, cases(w, "wexact"), "wide", "exact probabilities of a wide register")
    t.done("circuits of spec/QCircuit.tla run with shots=None; %d of them have only final measurements and must be answered, the "
           "others must be answered exactly or rejected; random, seed %d" % (sum(x["must"] for x in cs), vf.SEED))


SUPPORTED = ("h id sdg s sxdg sx tdg t x y z cx cy cz csx ccx c3x c4x mcx rx ry rz p cp mcp cu1 crx cry crz r u cu3 cu swap iswap "
             "cswap rxx ryy rzz rzx").split()


def c15(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    sv = dict(MaxC=0, FinalMeas="none", OpenCtrl=True, MaxBranches=1)
    # exhaustive: every instruction, tuple of qubits, control state
    groups = [SUPPORTED[i::vf.JOBS] for i in range(vf.JOBS)]
    jobs = [dict(module="QSweep", consts={**BASE, **sv, "SweepNames": set(g), "Widths": set([1, 2, 3, 4] if Q else [1, 2, 3, 4, 5]), "SweepOpen": True},
                 workdir=c.dir, tag="sweep%d" % i, invariants=["Emitted"], workers=1, seed=vf.SEED, init="SwInit", next_="SwNext",
                 heap="2g", timeout=2400) for i, g in enumerate(groups)]
    res = vf.tlc_many(jobs, vf.JOBS)
    sw = [x for r in res for x in r["emitted"]]
    t.states += sum(r["distinct"] for r in res)
    t.traces += len(sw)
    t.replay("C15", pkg, cases(sw, "sv"), "sweep", "statevector of one instruction")
    a = t.circuits("sv", 700, **dict(sv, MaxQ=5, Kinds=["gate", "gate", "gate", "unitary", "mix"]))
    b = t.circuits("svu", 200, **dict(sv, MaxQ=4, Kinds=["unitary", "unitary", "mix"], Len1=5))
    t.replay("C15", pkg, cases(a + b, "sv"), "sv", "statevector")
    t.replay("C15", pkg, [dict(mode="unsupported", part=i, parts=16) for i in range(16)], "unsup", "unsupported instruction")
    t.done("every supported instruction name on every ordered tuple of qubits of registers of up to %d qubits with every control "
           "state (spec/QSweep.tla, exhaustive: %d cases), random circuits of spec/QCircuit.tla with global phase, and every other "
           "instruction of the Qiskit library, which must be rejected" % (4 if Q else 5, len(sw)))


def sess(tr, **kw):
    return [dict(mode="session", split=i % 3, samename=i % 2 == 0, inplace=i % 4 < 2, vector=i % 5 in (0, 3), **t, **kw) for i, t in enumerate(tr)]


def levels(what, cs):
    """The primitives transpile with each optimization level."""
    return [dict(x, level=i % 4, **{what: dict(x.get(what, {}), transpile_options=dict(optimization_level=i % 4))}) for i, x in enumerate(cs)]


def c16(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.sessions("jobs", 250, JobKinds=["run", "run", "bad", "bad", "exactrun", "statevector"], Bads=BADS, NJobs=5)
    t.replay("C16", pkg, sess(a), "jobs", "a history of jobs")
    b = t.sessions("dyn", 120, JobKinds=["run", "run", "bad"], Bads=BADS, **dict(DYN, Len1=5))
    t.replay("C16", pkg, sess(b, aslist=True), "dyn", "a history of jobs with dynamic circuits")
    t.done("histories of spec/QJobs.tla: libraries of 3 parametrised circuits, 4 or 5 jobs of 1 to 3 circuits, valid and spoiled in %d "
           "ways, random, seed %d" % (len(BADS), vf.SEED))


def c17(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.sessions("smp", 250, JobKinds=["sampler"], MaxEntries=4, NJobs=3)
    h = len(a) // 2
    t.replay("C17", pkg, sess(a[:h]) + sess(a[h:], sampler=dict(skip_transpilation=True)), "shots", "a history of sampler calls")
    t.replay("C17", pkg, sess(a[h:], exact=True) + sess(a[:h], exact=True, sampler=dict(backend_options=dict(shots=None), skip_transpilation=True)),
             "exact", "a history of exact sampler calls")
    b = t.sessions("dyn", 80, JobKinds=["sampler", "run", "sampler"], **dict(DYN, Len1=5))
    t.replay("C17", pkg, sess(b), "dyn", "a history of sampler calls with dynamic circuits")
    d = t.sessions("parts", 90, JobKinds=["sampler"], MaxEntries=4, NJobs=3, Kinds=["gate", "mix", "call", "call"])
    h = len(d) // 2
    t.replay("C17", pkg, levels("sampler", sess(d[:h], composite=True) + sess(d[h:], composite=True, exact=True)), "parts", "a history of sampler calls with composite instructions")
    w = t.wide("wide", 90, MaxN=80, MaxC=70)
    t.replay("C17", pkg, [dict(mode="wsampler", circs=w[i:i + 1 + i % 3], shots=300, sampler=dict(skip_transpilation=i % 4 < 2)) for i in range(0, len(w), 2)],
             "wide", "a sampler call on wide registers")
    d = t.blocks("blocks", 48, "counts")
    t.replay("C17", pkg, [dict(x, sampler=dict(skip_transpilation=i % 3 > 0)) for i, x in enumerate(cases(d, "bsampler", 300))], "blocks",
             "a sampler call on up to 100 qubits")
    d = t.sums("sums", 40, "counts")
    t.replay("C17", pkg, [dict(x, sampler=dict(skip_transpilation=i % 3 > 0)) for i, x in enumerate(cases(d, "bsampler", 300))], "sums",
             "a sampler call on a wide entangled register")
    t.done("histories of spec/QJobs.tla: libraries of 3 parametrised circuits, several calls of 1 to 4 entries on one sampler, random, seed %d" % vf.SEED)


def c18(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.sessions("est", 160, JobKinds=["estimator"], MaxC=0, FinalMeas="none", MaxEntries=4, NJobs=3)
    cfgs = [dict(estimator=dict(approximation=True)), dict(estimator=dict()), dict(estimator=dict(abelian_grouping=False)),
            dict(estimator=dict(approximation=True, abelian_grouping=False, skip_transpilation=True)),
            dict(estimator=dict(skip_transpilation=True)), dict(estimator=dict(approximation=True), eshots=3000)]
    cs = []
    for i, x in enumerate(sess(a)):
        for k in ([i % 6, (i + 1) % 6] if Q else range(6)):
            cs.append(dict(x, **cfgs[k]))
    t.replay("C18", pkg, cs, "est", "a history of estimator calls")
    d = t.sessions("parts", 40, JobKinds=["estimator"], MaxC=0, FinalMeas="none", MaxEntries=4, NJobs=3, Kinds=["gate", "mix", "call", "call"])
    t.replay("C18", pkg, levels("estimator", sess(d, composite=True, estimator=dict(approximation=True))), "parts", "a history of estimator calls with composite instructions")
    w = t.wide("wide", 100, MaxN=80, Len1=16, Mode="expect")
    cs = [dict(mode="wexp", circs=w[i:i + 1 + i % 3], shots=2048, estimator=dict(abelian_grouping=bool(i % 2), skip_transpilation=i % 4 == 3))
          for i in range(0, len(w), 2)]
    t.replay("C18", pkg, cs, "wide", "expectation values on a wide register")
    d = t.blocks("blocks", 64, "expect")
    t.replay("C18", pkg, [dict(x, estimator=[dict(), dict(abelian_grouping=False, skip_transpilation=True)][i % 2]) for i, x in enumerate(cases(d, "bexp", 2048))],
             "blocks", "expectation values on up to 100 qubits")
    d = t.sums("sums", 80, "expect", MaxN=48)
    t.replay("C18", pkg, [dict(x, estimator=[dict(), dict(abelian_grouping=False, skip_transpilation=True)][i % 2]) for i, x in enumerate(cases(d, "bexp", 2048))],
             "sums", "expectation values on a wide entangled register")
    t.done("histories of spec/QJobs.tla: libraries of 3 parametrised circuits, 3 calls of 1 to 4 entries on one estimator with exact expectation "
           "values of sums of 1 to 4 Pauli strings, in 6 configurations (exact, sampled, grouped or not, transpiled or not, normal "
           "approximation), random, seed %d" % vf.SEED)


def c19(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    tiny = vf.pyqdd("pytiny", c.dir, buckets=61, alloc=16)
    mt = vf.pyqdd("pymt", c.dir, mt=True)
    sv = dict(MaxC=0, FinalMeas="none", MaxBranches=1, OpenCtrl=True)
    a = t.circuits("calls", 400, **dict(sv, Kinds=["gate", "mix", "call", "call", "unitary"], Len1=6))
    t.replay("C19", pkg, cases(a, "sv", calls="qdd"), "calls", "merged instructions inside a circuit")
    w = t.circuits("long", 100, **dict(sv, Kinds=["gate", "mix", "clifford", "unitary"], Len0=14, Len1=30))
    t.replay("C19", tiny, cases(a[:250 * MANY] + w, "whole"), "whole", "a circuit merged as a whole")
    b = t.sessions("ops", 200, JobKinds=["merge", "merge", "use", "use", "statevector", "drop"], MaxC=0, FinalMeas="none", NJobs=9, Len1=10)
    t.replay("C19", tiny, sess(b, opts=dict(gc=[20, 20])), "ops", "merged operators used later (frequent collections)")
    t.replay("C19", pkg, sess(b), "ops2", "merged operators used later")
    d = t.circuits("opts", 300, FinalMeas="some", Kinds=["gate", "mix", "clifford", "measure", "reset"], CondP=3)
    e = t.circuits("static", 200)
    cs = cases(d + e, "counts", 150)
    vary = [dict(gc=[15, 15]), dict(show=1), dict(gc=[2, 500]), dict(gc=[500, 3], show=2)]
    t.replay("C19", tiny, [dict(x, vary=vary[i % 4]) for i, x in enumerate(cs)], "options", "collection thresholds and progress reporting")
    t.replay("C19", mt, [dict(x, vary=dict(threads=[2, 3, 8, 11][i % 4])) for i, x in enumerate(cases(e, "counts", 150) + cases(a, "sv", calls="qdd"))], "threads",
             "worker threads")
    t.done("circuits of spec/QCircuit.tla with call instructions (sub-circuits merged into one operator and placed on other qubits), "
           "histories of spec/QJobs.tla that merge, use and drop operators between other runs, and the same circuits under changed "
           "collection thresholds, progress reporting and worker threads; random, seed %d" % vf.SEED)


def c20(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    a = t.sessions("seeds", 150, JobKinds=["seeded", "seeded", "run", "seededsampler", "repeat", "repeat", "reseed"], NJobs=7)
    t.replay("C20", pkg, sess(a), "seeds", "seeded runs and sampler calls")
    b = t.sessions("est", 80, JobKinds=["seededestimator", "repeat", "seededestimator"], MaxC=0, FinalMeas="none", NJobs=5)
    t.replay("C20", pkg, sess(b) + sess(b, estimator=dict(approximation=True), eshots=500), "est", "seeded estimator calls")
    d = t.sessions("dyn", 120, JobKinds=["seeded", "repeat", "run", "repeat"], NJobs=6, **dict(DYN, Len1=5))
    t.replay("C20", pkg, sess(d), "dyn", "seeded runs of dynamic circuits")
    fresh(c, t, pkg)
    t.done("histories of spec/QJobs.tla with seeded requests, repetitions with the same seed, other seeds and unseeded runs in between, and "
           "the same request in two processes; random, seed %d" % vf.SEED)


def fresh(c, t, pkg):
    """Seeded answers agree between processes, unseeded ones do not."""
    cs = [dict(mode="fresh", n=5, seed=s) for s in (None, None, 7, 7, 8)]
    out = []
    for i, x in enumerate(cs):
        x["out"] = os.path.join(c.dir, "fresh%d.json" % i)
        bad, n, _ = pyrun.run_part(pkg, [x], c.dir, "fresh%d" % i, 120)
        t.runs += n
        for _, tag, text in bad:
            c.violation("%s: %s" % (tag, text), json.dumps(x))
        out.append(open(x["out"]).read() if not bad else None)
    if None not in out:
        if out[2] != out[3]:
            c.violation("the same seeded run in two processes gives different memories", json.dumps(cs))
        if out[0] == out[1] or out[2] == out[4] or out[0] == out[2]:
            c.violation("unseeded or differently seeded runs in two processes give the same memory", json.dumps(cs))


def c21(c):
    pkg, t = vf.pyqdd("pyqdd", c.dir), Tally(c)
    mem = {"QDD_HARNESS_MEM": str(3 << 30)}
    a = t.blocks("cliff", 200, "engine", **BCLIFFORD) + t.blocks("gates", 240, "engine")
    b = t.sums("sums", 160, "engine")
    cs = [dict(mode="wengine", circ=x, turn=i, patience=20, strict=True, operator=True) for i, x in enumerate(a)]
    cs += [dict(mode="wengine", circ=x, turn=i, patience=20, strict=True, operator=False) for i, x in enumerate(b)]
    t.replay("C21", pkg, cs, "engine", "a state with a small diagram in the engine", env=mem)
    d = t.blocks("counts", 60, "counts", MinN=60) + t.sums("scounts", 60, "counts", MinN=30)
    t.replay("C21", pkg, cases(d, "bcounts", 300), "counts", "counts of a register of 30 to 100 qubits", env=mem)
    t.done("behaviours of spec/QBlocks.tla (registers of 20 to 100 qubits in a product of blocks of 1 to 3 scattered qubits, as states and as "
           "operators) and of spec/QSums.tla (12 to 60 qubits with accumulators that hold sums of the others), built gate by gate and taken "
           "apart again; the size of the diagram is the canonical one; random, seed %d" % vf.SEED,
           ["a gate may take 20 s and a process 3 GB where the engine needs milliseconds and megabytes"])


def c22(c):
    pkg, t = vf.pyqdd("pytiny", c.dir, buckets=61, alloc=16), Tally(c)
    progs = [["map", "gate", "gate", "collect", "gate", "read"], ["map", "seed", "gate", "collect", "gate", "sample", "read", "unseed"],
             ["map", "gate", "collect", "gate", "keep"], ["map", "gate", "collect", "gate", "sample", "read"]]
    k = dict(NJobs=2, Progs=progs, Grain="job", MaxNodes=8, Emitting=False, Units=1, Length=0)
    inv = ["Undisturbed", "KeptStays", "Exclusive"]
    jobs = [dict(module="Overlap", consts=dict(k, NJobs=n, MaxNodes=4 * n), workdir=c.dir, tag="ov%d" % n, invariants=inv, init="OInit", next_="ONext",
                 workers=2 if Q else 8, heap="4g", timeout=3000) for n in ((2, 3) if Q else (2, 3, 4))]
    jobs.append(dict(module="Overlap", consts=k, workdir=c.dir, tag="ov-live", spec="OSpec", properties=["Answered"]))
    jobs += [dict(module="Overlap", consts=dict(k, Grain=g), workdir=c.dir, tag="ov-" + g, invariants=inv, init="OInit", next_="ONext", expect_error=True)
             for g in ("step", "none")]
    res = vf.tlc_many(jobs, 3)
    if any("Undisturbed is violated" not in (r["error"] or "") for r in res[-2:]):
        raise vf.Broken("the model without turns satisfies its invariant")
    t.states += sum(r.get("distinct", 0) for r in res)
    a = t.sessions("meas", 40, JobKinds=["sampler", "run", "sampler", "exactrun", "seeded", "sampler"], MaxEntries=2, NJobs=5, Len0=4, Len1=12)
    d = t.sessions("dyn", 40, JobKinds=["sampler", "run", "seeded", "sampler"], MaxEntries=2, NJobs=4, **dict(DYN, Len1=9))
    b = t.sessions("exp", 80, JobKinds=["estimator", "statevector", "merge", "estimator", "use"], MaxC=0, FinalMeas="none", MaxEntries=2, NJobs=5, Len0=4, Len1=12)
    sch, st = vf.simulate("Overlap", dict(k, Units=8, Length=300, Emitting=True), c.dir, "turns", max(len(a) + len(d), 80), 400, ["EDone"], init="OInit", next_="ENext")
    t.states += st
    cs = []
    for i, x in enumerate(a + d):
        y = b[i % len(b)]
        est = dict(approximation=i % 4 < 2, abelian_grouping=i % 3 > 0, skip_transpilation=i % 2 == 0)
        ses = dict(sess([x])[0], shots=60), dict(sess([y])[0], shots=60, estimator=est)
        cs.append(dict(mode="overlap", sessions=ses, turns=sch[i % len(sch)]["turns"], sampler=dict(skip_transpilation=i % 2 == 1), estimator=est,
                       gc=[[10, 1 << 16], [40, 40], [100, 1 << 16], [1 << 16, 1 << 16]][i % 4], jobs=x["jobs"] + y["jobs"]))
    t.replay("C22", pkg, cs, "overlap", "requests that overlap in time")
    t.done("spec/Overlap.tla exhaustively (jobs of the four kinds, 2 and 3 at a time; without turns its invariant must fail); histories of spec/QJobs.tla "
           "whose requests are all submitted before any is answered, on one sampler, one estimator and the backends, with frequent collections, the engine "
           "calls ordered as schedules of spec/Overlap.tla wish where the package lets them; random, seed %d" % vf.SEED)


ALL = {"C12": (c12, "model_checking"), "C13": (c13, "model_checking"), "C14": (c14, "model_checking"), "C15": (c15, "model_checking"),
       "C16": (c16, "model_checking"), "C17": (c17, "model_checking"), "C18": (c18, "model_checking"), "C19": (c19, "model_checking"),
       "C20": (c20, "model_checking"), "C21": (c21, "model_checking"), "C22": (c22, "model_checking")}
