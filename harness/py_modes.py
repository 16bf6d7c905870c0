"""Sessions of spec/QJobs.tla: histories of requests against one backend, sampler and estimator."""
import gc, math
import numpy as np
from collections import Counter
from qiskit import QuantumCircuit
from qiskit.circuit import Parameter, ParameterVector
import qiskit.circuit.library as L
import py_driver as D
from py_driver import angle, amp, index, key, check_counts, quiet, run, backend, broken

NAMES = {1: "m", 2: "b", 3: "x"}          # alphabetical order differs from numerical order


BIG = {1: 0, 2: 2 ** 32 + 9}             # extreme seeds


def real_seed(s):
    return BIG.get(s, s)


def seeded_how(via, s, other, allowed):
    """(arguments of the call, run_options, backend_options) that give a primitive the seed s."""
    if via not in allowed:
        via = "call"
    return {"call": ({"seed": s}, {}, {}), "sim": ({"seed_simulator": s}, {}, {}),
            "both": ({"seed_simulator": s, "seed": other}, {}, {}), "options": ({}, {"seed": s}, {}),
            "backend": ({}, {}, {"seed_simulator": s}), "override": ({"seed": s}, {}, {"seed_simulator": other})}[via]


class Session:
    def __init__(self, case, bad):
        self.case, self.bad, self.lib = case, bad, case["lib"]
        self.shots = case.get("shots", 128)
        self.opts = case.get("opts", {})
        self.pars = []
        for l in self.lib:
            base = self.pars[l["of"] - 1] if l.get("of") and case.get("inplace") else {}
            vec = ParameterVector("v", 12)      # v[9] comes before v[10]
            self.pars.append({i: base.get(i) or (vec[{1: 10, 2: 9, 3: 2}[i]] if case.get("vector") else Parameter(NAMES[i])) for i in l["pars"]})
        self.circs = [self.template(i) for i in range(len(self.lib))]
        self.inplace, self.holders, self.held_obs = case.get("inplace"), {}, {}
        self.be = backend()
        self.sv = backend("statevector_simulator")
        if self.opts.get("gc"):
            from qdd import pyQDD
            pyQDD.set_gc_thr(*self.opts["gc"])
        self.sampler, self.estimators, self.merged, self.answers = None, {}, {}, {}
        self.memories = []

    def template(self, i):
        def bind(k, ins):
            ps = D.params(ins)
            p = ins["par"]
            if p:
                e = self.pars[i][abs(p)]
                e = -e if p < 0 else e
                ps[0] = 2 * e if D.HALF.get(ins["name"], 0) else e
            return ps
        return D.build(self.lib[i], split=self.case.get("split", 0), name="prog" if self.case.get("samename") else "lib%d" % i, bind=bind,
                       call=D.composite_call if self.case.get("composite") else None)

    def prepare(self, job):
        """A user may modify a circuit object between two requests: near copies take turns in one object."""
        want = {e["l"] - 1 for e in job["entries"]}
        for i in want:
            base = self.lib[i].get("of") or i + 1
            if any(k != i and (self.lib[k].get("of") or k + 1) == base for k in want):
                self.circs[i] = self.template(i)
                continue
            fresh, held = self.template(i), self.holders.get(base)
            if held is None:
                self.holders[base] = self.circs[i] = fresh
                continue
            held.clear()
            held.global_phase = fresh.global_phase
            for ins in fresh.data:
                held.append(ins.operation, [held.qubits[fresh.find_bit(q).index] for q in ins.qubits], [held.clbits[fresh.find_bit(b).index] for b in ins.clbits])
            self.circs[i] = held

    def values(self, e):
        i = e["l"] - 1
        return {p: angle(e["v"][int(k) - 1]) for k, p in self.pars[i].items()}

    def ordered(self, e):
        v = self.values(e)
        return [v[p] for p in self.circs[e["l"] - 1].parameters]

    def dist(self, e, text=True):
        regs = self.lib[e["l"] - 1]["regs"]
        d = {}
        for b in e["dist"]:
            k = key(b["c"], regs) if text else index(b["c"])
            d[k] = d.get(k, 0.0) + D.weight(b["w"])
        return d

    def complain(self, j, tag, text):
        self.bad.append([tag, "request %d (%s): %s" % (j + 1, self.case["jobs"][j]["kind"], text)])

    def collect(self, j, sub):
        for tag, text in sub:
            self.complain(j, tag, text)

    def submit(self, be, job, **kw):
        circs = [self.circs[e["l"] - 1] for e in job["entries"]]
        binds = [self.values(e) for e in job["entries"]]
        kw.update(self.opts.get("run", {}))
        if any(binds):
            kw["parameter_binds"] = binds
        return run(be, circs if len(circs) > 1 or self.case.get("aslist") else circs[0], **kw), circs

    # ------------------------------------------------------------ requests
    def do_run(self, j, job, seed=None):
        be, kw = self.be, {}
        if seed is not None:
            s = real_seed(seed)
            if job["via"] in ("options", "backend", "both"):
                from qdd import QddProvider
                be = QddProvider().get_backend()
                be.set_options(seed_simulator=s + 3 if job["via"] == "both" else s)
            if job["via"] not in ("options", "backend"):
                kw["seed_simulator"] = s
        (res, err), circs = self.submit(be, job, shots=self.shots, memory=True, **kw)
        if res is None:
            return self.complain(j, "REJECT", "a valid request was rejected: " + err)
        if len(res.results) != len(circs):
            return self.complain(j, "COUNT", "%d results for %d circuits" % (len(res.results), len(circs)))
        out = []
        for i, e in enumerate(job["entries"]):
            sub = []
            counts = dict(res.get_counts(i))
            mem = res.get_memory(i)
            check_counts(counts, self.dist(e), self.shots, sub, "entry %d: " % (i + 1))
            if dict(Counter(mem)) != counts:
                sub.append(["MEMORY", "entry %d: the per-shot memory disagrees with the counts" % (i + 1)])
            if not str(res.results[i].header.name).startswith(circs[i].name):
                sub.append(["NAME", "entry %d is named %r, the circuit %r" % (i + 1, res.results[i].header.name, circs[i].name)])
            self.collect(j, sub)
            out.append((counts, mem))
        return out

    def do_exactrun(self, j, job):
        (res, err), circs = self.submit(self.be, job, shots=None)
        if res is None:
            if self.case.get("must", True):
                self.complain(j, "REJECT", "a valid request was rejected: " + err)
            return
        for i, e in enumerate(job["entries"]):
            self.cmp_probs(j, i, {int(k): v for k, v in res.data(i)["probabilities"].items()}, self.dist(e, False))

    def cmp_probs(self, j, i, got, exp):
        for k in set(exp) | set(got):
            if abs(exp.get(k, 0.0) - got.get(k, 0.0)) > D.TOL:
                self.complain(j, "PROB", "entry %d: value %s is reported with probability %.9f, exact is %.9f; exact distribution %s"
                              % (i + 1, k, got.get(k, 0.0), exp.get(k, 0.0), D.short(exp)))
                return

    def do_statevector(self, j, job):
        (res, err), circs = self.submit(self.sv, job, shots=1)
        if res is None:
            return self.complain(j, "REJECT", "a valid request was rejected: " + err)
        for i, e in enumerate(job["entries"]):
            self.cmp_vec(j, "entry %d: " % (i + 1), res.data(i)["statevector"], e)

    def cmp_vec(self, j, what, got, e):
        exp = D.vector(e["vec"]) * np.exp(1j * angle(self.lib[e["l"] - 1]["phase"]))
        got = np.array(got)
        if got.shape != exp.shape or np.max(np.abs(got - exp)) > D.TOL:
            self.complain(j, "SV", "%sstatevector is %s, exact is %s" % (what, np.round(got[:16], 6).tolist(), np.round(exp[:16], 6).tolist()))

    def do_bad(self, j, job):
        es, at, b = job["entries"], job["at"] - 1, job["bad"]
        circs = [self.circs[e["l"] - 1] for e in es]
        binds = [self.values(e) for e in es]
        kw = dict(shots=self.shots)
        n = circs[at].num_qubits
        drop_binds = False
        if b.startswith("shots"):
            kw["shots"] = {"shots0": 0, "shotsneg": -5, "shotsbig": 10 ** 6 + 1}[b]
        elif b == "nomeas":
            q = QuantumCircuit(n)
            q.h(0)
            circs[at], binds[at] = q, {}
        elif b == "unbound":
            z = Parameter("zz")
            circs[at] = circs[at].copy()
            circs[at].rx(z, 0)
        elif b == "nobinds":
            z = Parameter("zz")
            circs[at] = circs[at].copy()
            circs[at].rx(z, 0)
            drop_binds = True
        elif b == "length":
            if not any(binds):
                circs[at], binds[at] = circs[at].copy(), {}
            z = Parameter("zz")
            circs[at] = circs[at].copy()
            circs[at].rx(z, 0)
            binds[at] = dict(binds[at])
            binds[at][z] = 0.5
            binds = binds[:-1]
        else:
            q = QuantumCircuit(max(n, 3), 1)
            if b == "unsup_gate":
                q.append(L.RCCXGate(), [0, 1, 2])
            elif b == "unsup_init":
                q.initialize([0.6, 0.8], 0)
            elif b == "unsup_ifelse":
                q.h(0)
                q.measure(0, 0)
                with q.if_test((q.clbits[0], 1)):
                    q.x(1)
            elif b == "unsup_delay":
                q.append(L.XXMinusYYGate(0.3), [0, 1])
            elif b == "unsup_custom":
                sub = QuantumCircuit(2, name="mine")
                sub.h(0)
                q.append(sub.to_gate(), [0, 1])
            elif b == "unsup_cond":         # never executed, still unsupported
                q.append(L.RCCXGate(), [0, 1, 2]).c_if(q.clbits[0], 1)
            elif b == "unsup_loop":
                with q.for_loop(range(2)):
                    q.x(1)
            q.measure(0, 0)
            circs[at], binds[at] = q, {}
        if any(binds) and not drop_binds:
            kw["parameter_binds"] = binds
        elif drop_binds:
            pass
        res, err = run(self.be, circs, **kw)
        if res is not None:
            self.complain(j, "ACCEPT", "an invalid request (%s at position %d) was answered with %d results" % (b, at + 1, len(res.results)))

    def do_sampler(self, j, job, seed=None):
        from qdd.qdd_sampler import Sampler
        if self.sampler is None:
            self.sampler = Sampler(**self.case.get("sampler", {}))
        exact = self.case.get("exact", False) and seed is None
        kw, smp = {}, self.sampler
        if seed is not None:
            kw, ro, bo = seeded_how(job["via"], real_seed(seed), 12345, ("call", "sim", "both", "options", "backend", "override"))
            if ro or bo:
                cfg = self.case.get("sampler", {})
                smp = Sampler(**dict(cfg, run_options=dict(cfg.get("run_options", {}), **ro), backend_options=dict(cfg.get("backend_options", {}), **bo)))
        with quiet():
            r = smp.run([self.circs[e["l"] - 1] for e in job["entries"]], [self.ordered(e) for e in job["entries"]],
                                 shots=None if exact else self.shots, **kw).result()
        if len(r.quasi_dists) != len(job["entries"]):
            return self.complain(j, "COUNT", "%d entries for %d requests" % (len(r.quasi_dists), len(job["entries"])))
        out = []
        for i, e in enumerate(job["entries"]):
            got = {int(k): v for k, v in r.quasi_dists[i].items()}
            exp = self.dist(e, False)
            if exact:
                self.cmp_probs(j, i, got, exp)
            else:
                sub = []
                check_counts({k: round(v * self.shots) for k, v in got.items() if round(v * self.shots)}, exp, self.shots, sub, "entry %d: " % (i + 1))
                if r.metadata[i]["shots"] != self.shots:
                    sub.append(["COUNT", "entry %d: metadata says %s shots" % (i + 1, r.metadata[i]["shots"])])
                self.collect(j, sub)
            out.append(got)
        return out

    def do_estimator(self, j, job, seed=None):
        from qdd.qdd_estimator import Estimator
        from qiskit.quantum_info import SparsePauliOp
        cfg = self.case.get("estimator", {})
        if "e" not in self.estimators:
            with quiet():
                self.estimators["e"] = Estimator(**cfg)
        approx = cfg.get("approximation", False)
        shots = self.case.get("eshots", None if approx else 2048)
        obs = [SparsePauliOp([("".join(t["p"]))[::-1] for t in e["obs"]], [t["c"] for t in e["obs"]]) for e in job["entries"]]
        if self.inplace:            # observables of one shape take turns in one object as well
            used = set()
            for i, o in enumerate(obs):
                shape = (o.num_qubits, len(o))
                held = self.held_obs.setdefault(shape, o)
                if shape in used or held is o:
                    used.add(shape)
                    continue
                used.add(shape)
                held.paulis = o.paulis
                held.coeffs = o.coeffs
                obs[i] = held
        kw, est = {}, self.estimators["e"]
        if seed is not None:
            kw, ro, bo = seeded_how(job["via"], real_seed(seed), 12345,
                                    ("call", "options", "override") if approx else ("call", "sim", "both", "options", "backend", "override"))
            if ro or bo:
                with quiet():
                    est = Estimator(**dict(cfg, run_options=dict(cfg.get("run_options", {}), **ro), backend_options=dict(cfg.get("backend_options", {}), **bo)))
        if shots is not None:
            kw["shots"] = shots
        with quiet():
            r = est.run([self.circs[e["l"] - 1] for e in job["entries"]], obs,
                                         [self.ordered(e) for e in job["entries"]], **kw).result()
        vals = np.array(r.values)
        if vals.shape != (len(job["entries"]),):
            return self.complain(j, "COUNT", "%s values for %d requests" % (vals.shape, len(job["entries"])))
        for i, e in enumerate(job["entries"]):
            ex = [amp(x["e"], x["k"], x["m"]).real for x in e["exps"]]
            cs = [t["c"] for t in e["obs"]]
            exact = sum(c * x for c, x in zip(cs, ex))
            if shots is None:
                tol = 1e-8
            elif approx:
                tol = 7.5 * math.sqrt(sum(c * c * max(0.0, 1 - x * x) for c, x in zip(cs, ex)) / shots) + 1e-6
            else:
                tol = est_tol(cs, ex, [all(p == "I" for p in t["p"]) for t in e["obs"]], shots)
            if abs(vals[i] - exact) > tol or abs(complex(vals[i]).imag) > 1e-8:
                self.complain(j, "EXPECT", "entry %d: value is %s, exact is %.9f (tolerance %.4f)" % (i + 1, vals[i], exact, tol))
                return
            text = None
            if shots is not None and len({tuple(t["p"]) for t in e["obs"]}) == len(e["obs"]):
                text = wrong_variance(r.metadata[i], cs, ex, shots, approx)
            if text:
                return self.complain(j, "EXPECT", "entry %d: %s" % (i + 1, text))
        return vals.tolist()

    # seeded requests and their repetitions
    def do_seeded(self, j, job):
        self.keep(j, job, self.do_run(j, job, job["seed"]), True)

    def do_seededsampler(self, j, job):
        self.keep(j, job, self.do_sampler(j, job, job["seed"]), False)

    def do_seededestimator(self, j, job):
        self.keep(j, job, self.do_estimator(j, job, job["seed"]), False)

    def keep(self, j, job, got, memory):
        if got is None:
            return
        if job["of"]:
            first = self.answers.get(job["of"])
            if first is not None and first != got:
                self.complain(j, "SEED", "the repetition of request %d with seed %d gave another answer: %s, before %s"
                              % (job["of"], job["seed"], str(got)[:200], str(first)[:200]))
        else:
            self.answers[j + 1] = got
        if memory:
            # chance that independent samples agree
            lg = 0.0
            for e in job["entries"]:
                lg += self.shots * math.log10(max(1e-300, sum(p * p for p in self.dist(e).values())))
            mine = [m for _, m in got]
            ks = [(e["l"], str(e["v"])) for e in job["entries"]]
            for k2, seed2, mem2 in self.memories:
                if k2 == ks and seed2 != job["seed"] and lg < -10 and mem2 == mine:
                    self.complain(j, "SEED", "seeds %d and %d gave the same per-shot memory" % (seed2, job["seed"]))
            self.memories.append((ks, job["seed"], mine))
            if lg < -10 and not job["of"]:
                again = [self.do_run(j, job), self.do_run(j, job)]
                if None in again:
                    return
                again = [[m for _, m in a] for a in again]
                if again[0] == mine or again[1] == mine or again[0] == again[1]:
                    self.complain(j, "SEED", "unseeded runs repeat each other or the seeded run")

    # merged operators
    def do_merge(self, j, job):
        e = job["entries"][0]
        c = self.circs[e["l"] - 1].copy()
        if c.parameters:
            c = c.assign_parameters(self.values(e))
        with quiet():
            self.merged[j + 1] = self.sv.merge_circuit(c)

    def do_use(self, j, job):
        from qdd.qdd_gate import QDDGate
        e = job["entries"][0]
        n = self.lib[e["l"] - 1]["n"]
        q = QuantumCircuit(n)
        q.append(QDDGate(n, self.merged[job["of"]]), range(n))
        res, err = run(self.sv, q, shots=1)
        if res is None:
            return self.complain(j, "REJECT", "applying a merged operator was rejected: " + err)
        self.cmp_vec(j, "operator of request %d: " % job["of"], res.data(0)["statevector"], e)

    def do_drop(self, j, job):
        self.merged.pop(job["of"], None)
        gc.collect()


def m_session(case, bad):
    s = Session(case, bad)
    for j, job in enumerate(case["jobs"]):
        if s.inplace and job["kind"] != "bad":
            s.prepare(job)
        getattr(s, "do_" + job["kind"])(j, job)
        if len(bad) > 3:
            break


def m_whole(case, bad):
    """The circuit merged into one operator, applied to |0..0> - several times over, with merged circuits in between."""
    from qdd.qdd_gate import QDDGate
    circ = case["circ"]
    n = circ["n"]
    exp = D.vector(circ["vec"]) * np.exp(1j * angle(circ["phase"]))
    sv = backend("statevector_simulator")
    inner = D.build(circ, case.get("split", 0), call=D.merged_call)
    from qdd import pyQDD
    ops = []
    with quiet():
        for freq in (20, 1, 7, 3):          # the last three with a collection every time
            pyQDD.set_gc_thr(1 << 16, 1 << 16 if freq == 20 else 1)
            ops.append(sv.merge_circuit(inner, gc_freq=freq))
        pyQDD.set_gc_thr(1 << 16, 1 << 16)
    for op in ops + ops[:1]:
        q = QuantumCircuit(n)
        q.append(QDDGate(n, op), range(n))
        res, err = run(sv, q, shots=1)
        if res is None:
            bad.append(["REJECT", "applying a merged operator was rejected: " + err])
            return
        got = np.array(res.data(0)["statevector"])
        if got.shape != exp.shape or np.max(np.abs(got - exp)) > D.TOL:
            bad.append(["SV", "statevector is %s, exact is %s" % (np.round(got[:16], 6).tolist(), np.round(exp[:16], 6).tolist())])
            return


def m_unsupported(case, bad):
    """Every instruction of the Qiskit library outside the supported set must be rejected by both backends."""
    import inspect
    import qiskit.circuit as QC
    from qiskit.circuit import Gate, Instruction
    import qiskit.circuit.library.standard_gates as SG
    ok = set(D.CLS.values()) | {L.MCXGate, L.MCPhaseGate, L.MCXGrayCode, L.MCXRecursive, L.MCXVChain, L.UnitaryGate}
    made = []
    for nm, cl in sorted(inspect.getmembers(SG, inspect.isclass)):
        if not issubclass(cl, Gate) or cl in ok or cl is Gate:
            continue
        for args in ((), (0.3,), (0.3, 0.4), (0.3, 0.4, 0.5), (2,), (0.3, 2), (0.1, 0.2, 0.3, 0.4)):
            try:
                g = cl(*args)
            except Exception:
                continue
            if type(g) in ok or g.base_class in ok:
                continue
            made.append((nm, g))
            break
    made += [("Initialize", L.Initialize([0.6, 0.8])), ("StatePreparation", L.StatePreparation([0.6, 0.8])),
             ("QFT", L.QFT(2)), ("Diagonal", L.Diagonal([1, -1])), ("Permutation", L.PermutationGate([1, 0])),
             ("PauliGate", L.PauliGate("XY")), ("Pauli evolution", L.PauliEvolutionGate(__import__("qiskit").quantum_info.SparsePauliOp("ZZ"), 0.2)),
             ("Delay", QC.Delay(10)), ("controlled H", L.HGate().control(3)), ("controlled rzz", L.RZZGate(0.3).control(1)),
             ("opaque", Gate("opaque", 2, [])), ("opaque instruction", Instruction("thing", 1, 0, [])),
             ("powered", L.XGate().power(0.3, annotated=True)),
             ("store", None)]
    for i, (nm, g) in enumerate(made):
        if i % case["parts"] != case["part"] or g is None or type(g) in ok:
            continue
        if nm == "Permutation" or g.num_qubits == 0:
            continue
        for which in (None, "statevector_simulator"):
            for place in (0, 1):
                q = QuantumCircuit(g.num_qubits + place, 1)
                q.h(0)
                try:
                    q.append(g, list(range(place, g.num_qubits + place)))
                except Exception:
                    continue
                q.x(0)
                if which is None:
                    q.measure(0, 0)
                try:
                    res, err = run(backend(which), q, shots=8)
                except Exception as e:
                    bad.append(["EXC", "%s on %s: %s: %s" % (nm, which, type(e).__name__, str(e)[:200])])
                    continue
                if res is not None:
                    bad.append(["ACCEPT", "the unsupported instruction %s (%s) was accepted by %s" % (nm, g.name, which or "qasm_simulator")])


# ------------------------------------------------------------------ wide sparse registers (spec/QWide.tla)
def wide_circuit(circ):
    nc = circ["nc"]
    q = QuantumCircuit(circ["n"], nc)
    for ins in circ["prog"]:
        if ins["op"] == "measure":
            q.measure(ins["q"][0], ins["b"])
        else:
            q.append(D.gate(ins), ins["q"])
    return q


def wide_dist(circ):
    d = {}
    for b in circ["dist"]:
        d[tuple(b["c"])] = d.get(tuple(b["c"]), 0.0) + D.weight(b["w"])
    return d


def m_wcounts(case, bad):
    circ, shots = case["circ"], case["shots"]
    exp = {key(b, [circ["nc"]]): p for b, p in wide_dist(circ).items()}
    res, err = run(backend(), wide_circuit(circ), shots=shots, memory=True)
    if res is None:
        bad.append(["REJECT", "a valid circuit was rejected: " + err])
        return
    counts = dict(res.get_counts(0))
    check_counts(counts, exp, shots, bad)
    if dict(Counter(res.get_memory(0))) != counts:
        bad.append(["MEMORY", "the per-shot memory disagrees with the counts"])


def m_wexact(case, bad):
    circ = case["circ"]
    exp = {index(b): p for b, p in wide_dist(circ).items()}
    res, err = run(backend(), wide_circuit(circ), shots=None)
    if res is None:
        bad.append(["REJECT", "a circuit whose measurements are final was rejected: " + err])
        return
    got = {int(k): v for k, v in res.data(0)["probabilities"].items()}
    for k in set(exp) | set(got):
        if abs(exp.get(k, 0.0) - got.get(k, 0.0)) > D.TOL:
            bad.append(["PROB", "classical value %d is reported with probability %.9f, exact is %.9f" % (k, got.get(k, 0.0), exp.get(k, 0.0))])
            return


def est_tol(cs, ex, trivial, shots):
    """Largest credible error of a sampled sum of Pauli strings with coefficients cs and expectations ex."""
    l = math.log(2 / D.ALPHA)
    tol = 1e-8
    for c, x, t in zip(cs, ex, trivial):
        if not t and abs(x) < 1 - 1e-9:
            tol += abs(c) * (math.sqrt(2 * (1 - x * x) * l / shots) + 4 * l / (3 * shots))
    return tol


def wrong_variance(meta, cs, ex, shots, exact):
    """The variance that comes with a value: the sum of c^2 (1 - <P>^2), estimated from the shots unless the distribution is known."""
    want = sum(c * c * max(0.0, 1 - x * x) for c, x in zip(cs, ex))
    d = 7.5 / math.sqrt(shots)
    tol = 1e-8 if exact else sum(c * c * min(1.0, 2 * d * abs(x) + d * d) for c, x in zip(cs, ex)) + 1e-8
    got = meta.get("variance")
    if got is None or not abs(got - want) <= tol:
        return "the variance is %s, it must be %.9f (tolerance %.4f)" % (got, want, tol)


def m_wexp(case, bad):
    """One estimator call: wide circuits, each with its sum of Pauli strings."""
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    circs, ops, want = [], [], []
    for c in case["circs"]:
        terms = []
        for t in c["obs"]:
            lab = ["I"] * c["n"]
            for letter in "xyz":
                for q in t["p"][letter]:
                    lab[c["n"] - 1 - q] = letter.upper()
            if "".join(lab) not in [x for x, _, _ in terms]:
                terms.append(("".join(lab), t["c"], amp(t["v"]["e"], t["v"]["k"], t["v"]["m"]).real))
        circs.append(wide_circuit(dict(c, nc=0)))
        ops.append(SparsePauliOp([x for x, _, _ in terms], [y for _, y, _ in terms]))
        want.append(terms)
    shots = case["shots"]
    with quiet():
        r = Estimator(**case["estimator"]).run(circs, ops, shots=shots).result()
    vals = np.array(r.values)
    if vals.shape != (len(circs),):
        bad.append(["COUNT", "%s values for %d requests" % (vals.shape, len(circs))])
        return
    for i, terms in enumerate(want):
        cs, ex = [y for _, y, _ in terms], [z for _, _, z in terms]
        exact = sum(a * b for a, b in zip(cs, ex))
        tol = est_tol(cs, ex, [set(x) == {"I"} for x, _, _ in terms], shots)
        if abs(vals[i] - exact) > tol:
            bad.append(["EXPECT", "entry %d (%d qubits): value is %s, exact is %.9f (tolerance %.4f)" % (i + 1, circs[i].num_qubits, vals[i], exact, tol)])
            return
        text = wrong_variance(r.metadata[i], cs, ex, shots, False)
        if text:
            bad.append(["EXPECT", "entry %d: %s" % (i + 1, text)])
            return


def m_wsampler(case, bad):
    """One sampler call: wide circuits with final measurements."""
    from qdd.qdd_sampler import Sampler
    circs = [wide_circuit(c) for c in case["circs"]]
    with quiet():
        r = Sampler(**case["sampler"]).run(circs, shots=case["shots"]).result()
    if len(r.quasi_dists) != len(circs):
        bad.append(["COUNT", "%d distributions for %d requests" % (len(r.quasi_dists), len(circs))])
        return
    for i, c in enumerate(case["circs"]):
        exp = {index(b): p for b, p in wide_dist(c).items()}
        got = {k: round(v * case["shots"]) for k, v in r.quasi_dists[i].items()}
        sub = []
        check_counts(got, exp, case["shots"], sub, "entry %d: " % (i + 1))
        bad.extend(sub)


# ------------------------------------------------------------------ wide registers in superposition (spec/QBlocks.tla)
def block_circuit(case, nc=None):
    c = case["circ"]
    regs = [c["nc"]] if not case["split"] or c["nc"] < 2 else [c["nc"] // 3, c["nc"] - c["nc"] // 3]
    return D.build(dict(c, regs=regs if nc is None else [], phase=[0, 0]), case["split"])


def block_dist(b):
    d = {}
    for x in b["d"]:
        d[tuple(x["c"])] = d.get(tuple(x["c"]), 0.0) + D.weight(x["w"])
    return d


def m_bcounts(case, bad):
    """Counts of a product of blocks: the outcomes of every block, and of pairs of blocks, which are independent."""
    circ, shots = case["circ"], case["shots"]
    res, err = run(backend(), block_circuit(case), shots=shots, memory=True, **D.vary(case))
    if res is None:
        bad.append(["REJECT", "a valid circuit was rejected: " + err])
        return
    counts = dict(res.get_counts(0))
    if dict(Counter(res.get_memory(0))) != counts:
        bad.append(["MEMORY", "the per-shot memory disagrees with the counts"])
    rows = [(k.replace(" ", "")[::-1], v) for k, v in counts.items()]
    if any(len(k) != circ["nc"] for k, _ in rows):
        bad.append(["COUNT", "an outcome has the wrong number of bits"])
        return
    blocks = circ["dist"]
    dists = [block_dist(b) for b in blocks]

    def marginal(bits, dist, what):
        got = Counter()
        for k, v in rows:
            got[tuple(int(k[i]) for i in bits)] += v
        check_counts(got, dist, shots, bad, what)
        return bool(bad)
    for k, _ in rows:
        r = broken(circ.get("rel", ()), lambda b: int(k[b]))
        if r:
            bad.append(["SUPPORT", "outcome %s (%d qubits): bit %d is %d, it must be bit %d of %d + the sum of %s" % (k, circ["n"], r["b"], int(k[r["b"]]), r["j"], r["c"],
                        [(b, int(k[b]), a) for b, a in r["a"]])])
            return
    for b, d in zip(blocks, dists):
        if marginal(b["b"], d, "bits %s (%d qubits): " % (b["b"], circ["n"])):
            return
    for i in range(len(blocks)):
        j = (i + 1 + i * i % 7) % len(blocks)
        if i != j:
            joint = {x + y: p * q for x, p in dists[i].items() for y, q in dists[j].items()}
            if marginal(blocks[i]["b"] + blocks[j]["b"], joint, "bits %s and %s (%d qubits): " % (blocks[i]["b"], blocks[j]["b"], circ["n"])):
                return


def m_bexp(case, bad):
    """Expectation values of Pauli strings on a product of blocks."""
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    circ, shots = case["circ"], case["shots"]
    terms = {}
    for t in circ["obs"]:
        lab, x = ["I"] * circ["n"], 1.0
        for f in t["f"]:
            for q, l in zip(f["q"], f["p"]):
                lab[circ["n"] - 1 - q] = l
            x *= amp(f["v"]["e"], f["v"]["k"], f["v"]["m"]).real
        terms.setdefault("".join(lab), (t["c"], x))
    op = SparsePauliOp(list(terms), [c for c, _ in terms.values()])
    with quiet():
        r = Estimator(**case["estimator"]).run([block_circuit(case, 0)], [op], shots=shots).result()
    exact = sum(c * x for c, x in terms.values())
    tol = est_tol([c for c, _ in terms.values()], [x for _, x in terms.values()], [set(l) == {"I"} for l in terms], shots)
    if abs(r.values[0] - exact) > tol:
        bad.append(["EXPECT", "%d qubits: value is %s, exact is %.9f (tolerance %.4f)" % (circ["n"], r.values[0], exact, tol)])
        return
    text = wrong_variance(r.metadata[0], [c for c, _ in terms.values()], [x for _, x in terms.values()], shots, False)
    if text:
        bad.append(["EXPECT", "%d qubits: %s" % (circ["n"], text)])


def m_bsampler(case, bad):
    """One sampler call on one product of blocks: the marginals of its quasi-distribution."""
    from qdd.qdd_sampler import Sampler
    circ, shots = case["circ"], case["shots"]
    with quiet():
        r = Sampler(**case["sampler"]).run([block_circuit(case)], shots=shots).result()
    got = {k: round(v * shots) for k, v in r.quasi_dists[0].items()}
    for k in got:
        x = broken(circ.get("rel", ()), lambda b: k >> b & 1)
        if x:
            bad.append(["SUPPORT", "outcome %d (%d qubits): bit %d is wrong" % (k, circ["n"], x["b"])])
            return
    for b in circ["dist"]:
        m = Counter()
        for k, v in got.items():
            m[tuple(k >> i & 1 for i in b["b"])] += v
        check_counts(m, block_dist(b), shots, bad, "bits %s (%d qubits): " % (b["b"], circ["n"]))
        if bad:
            return


def m_branches(case, bad):
    """One qubit in |0> + |1> and, where it is 1, a rotation of every other qubit."""
    n, shots = case["n"], case["shots"]
    q = QuantumCircuit(n, n)
    q.h(0)
    for i in range(1, n):
        if case["gate"] == "h":
            q.cu(math.pi / 2, 0, math.pi, 0, 0, i)
        else:
            q.cry(math.pi / 2, 0, i)
    q.measure(range(n), range(n))
    res, err = run(backend(), q, shots=shots)
    if res is None:
        bad.append(["REJECT", err])
        return
    got = Counter()
    for k, v in res.get_counts().items():
        got["one" if k[-1] == "1" else "zero" if "1" not in k else "other"] += v
    check_counts(got, {"one": 0.5, "zero": 0.5}, shots, bad, "%d qubits: first qubit " % n)


def m_fresh(case, bad):
    """The per-shot memory of one run in a fresh process, written to a file."""
    import json
    q = QuantumCircuit(case["n"], case["n"])
    q.h(range(case["n"]))
    q.measure(range(case["n"]), range(case["n"]))
    kw = {} if case["seed"] is None else {"seed_simulator": case["seed"]}
    res, err = run(backend(), q, shots=100, memory=True, **kw)
    if res is None:
        bad.append(["REJECT", err])
        return
    json.dump(res.get_memory(0), open(case["out"], "w"))


MODES = {"session": m_session, "whole": m_whole, "unsupported": m_unsupported, "wcounts": m_wcounts, "wexact": m_wexact, "wexp": m_wexp, "wsampler": m_wsampler, "bcounts": m_bcounts, "bexp": m_bexp, "bsampler": m_bsampler,
          "fresh": m_fresh, "branches": m_branches}
