"""Runs circuits and requests generated from the specifications through the Python package
and compares every answer with the exact one.

usage: py_driver.py CASES REPORT      (both one JSON object per line)
A case has "mode" and, for circuit modes, "circ" (a record of spec/QCircuit.tla).
A report line: {"i": case number, "bad": [[tag, text], ...], "runs": n}
"""
import contextlib, io, json, math, os, sys, traceback, warnings, resource
import numpy as np
from collections import Counter, defaultdict
from scipy.stats import binom
import qiskit.circuit.library as L
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Parameter, Qubit, Clbit
from qiskit.providers import JobStatus

warnings.simplefilter("ignore")
TOL = 1e-9
ALPHA = 1e-10
SQ2 = math.sqrt(2.0)


# ------------------------------------------------------------------ exact values
def angle(a):
    return a[0] * math.pi / 4 + a[1] * math.atan2(4, 3)


def amp(e, k, m):
    h = math.sqrt(0.5)
    a, b, c, d = e
    s = SQ2 ** k * 5.0 ** m
    return complex(a + (b - d) * h, c + (b + d) * h) / s


def vector(v):
    return np.array([amp(e, v["k"], v["m"]) for e in v["a"]])


def broken(rels, bit):
    """The first relation between the bits of an outcome that does not hold (spec/QSums.tla)."""
    for r in rels:
        if (r["c"] + sum(a * bit(b) for b, a in r["a"])) >> r["j"] & 1 != bit(r["b"]):
            return r


def weight(w):
    return (w["p"] + w["q"] * SQ2) / (2.0 ** w["k"] * 25.0 ** w["m"])


def distribution(circ):
    d = defaultdict(float)
    for b in circ["dist"]:
        d[tuple(b["c"])] += weight(b["w"])
    return dict(d)


# ------------------------------------------------------------------ circuits
HALF = {"rx": 1, "ry": 1, "rz": 1, "crx": 1, "cry": 1, "crz": 1, "r": 1, "u": 1, "cu3": 1, "cu": 1,
        "rxx": 1, "ryy": 1, "rzz": 1, "rzx": 1}     # leading angles that are given by their half
CLS = {"h": L.HGate, "id": L.IGate, "sdg": L.SdgGate, "s": L.SGate, "sxdg": L.SXdgGate, "sx": L.SXGate, "tdg": L.TdgGate,
       "t": L.TGate, "x": L.XGate, "y": L.YGate, "z": L.ZGate, "cx": L.CXGate, "cy": L.CYGate, "cz": L.CZGate,
       "csx": L.CSXGate, "ccx": L.CCXGate, "c3x": L.C3XGate, "c4x": L.C4XGate, "rx": L.RXGate, "ry": L.RYGate,
       "rz": L.RZGate, "p": L.PhaseGate, "cp": L.CPhaseGate, "cu1": L.CU1Gate, "crx": L.CRXGate, "cry": L.CRYGate,
       "crz": L.CRZGate, "r": L.RGate, "u": L.UGate, "cu3": L.CU3Gate, "cu": L.CUGate, "swap": L.SwapGate,
       "iswap": L.iSwapGate, "cswap": L.CSwapGate, "rxx": L.RXXGate, "ryy": L.RYYGate, "rzz": L.RZZGate, "rzx": L.RZXGate}


def params(ins):
    h = HALF.get(ins["name"], 0)
    return [angle(a) * (2 if i < h else 1) for i, a in enumerate(ins["x"])]


def gate(ins, values=None):
    ps = params(ins) if values is None else values
    kw = {}
    cs = ins["cs"]
    if cs and not all(cs):
        kw["ctrl_state"] = sum(b << i for i, b in enumerate(cs))
    if ins["name"] == "mcx":
        return L.MCXGate(len(cs), **kw)
    if ins["name"] == "mcp":
        return L.MCPhaseGate(ps[0], len(cs), **kw)
    return CLS[ins["name"]](*ps, **kw)


def matrix(y):
    return np.array([[amp(e, y["k"], y["m"]) for e in row] for row in y["g"]])


def call_inline(qc, ins, q, bind=None):
    """The body of a call instruction, gate by gate."""
    for b in ins["body"]:
        qc.append(gate(b), [q[j] for j in b["q"]])


def body_circuit(ins):
    sub = QuantumCircuit(len(ins["q"]))
    call_inline(sub, ins, sub.qubits)
    return sub


def build(circ, split=0, name=None, measure=True, upto=None, bind=None, call=None):
    n = circ["n"]
    if split == "bits":         # bits come first; registers in another order name them, some qubits twice
        qbits, cbits = [Qubit() for _ in range(n)], [Clbit() for _ in range(sum(circ["regs"]))]
        qc = QuantumCircuit(name=name)
        qc.add_bits(qbits)
        qc.add_bits(cbits)
        at, cregs = 0, []
        for i, s in enumerate(circ["regs"]):
            cregs.append(ClassicalRegister(bits=cbits[at:at + s], name="c%d" % i))
            at += s
        qc.add_register(QuantumRegister(bits=qbits[::-1], name="qr"))
        if n > 1:
            qc.add_register(QuantumRegister(bits=qbits[1:], name="qs"))
        for r in cregs[::-1]:
            qc.add_register(r)
        return fill(qc, cregs, circ, measure, upto, bind, call)
    if split == "loose":        # qubits that belong to no register
        qregs = [[Qubit() for _ in range(n)]]
    elif split and n > 1:
        qregs = [QuantumRegister(split % n or 1, "qa"), QuantumRegister(n - (split % n or 1), "qb")]
    else:
        qregs = [QuantumRegister(n, "q")]
    cregs = [ClassicalRegister(s, "c%d" % i) for i, s in enumerate(circ["regs"])]
    return fill(QuantumCircuit(*qregs, *cregs, name=name), cregs, circ, measure, upto, bind, call)


def fill(qc, cregs, circ, measure, upto, bind, call):
    qc.global_phase = angle(circ["phase"])
    for k, ins in enumerate(circ["prog"][:upto]):
        q = [qc.qubits[j] for j in ins["q"]]
        if ins["op"] == "gate":
            r = qc.append(gate(ins, bind(k, ins) if bind else None), q)
        elif ins["op"] == "unitary":
            r = qc.append(L.UnitaryGate(matrix(ins["y"])), q)
        elif ins["op"] == "call":
            (call or call_inline)(qc, ins, q)
            continue
        elif ins["op"] == "measure":
            if not measure:
                continue
            r = qc.measure(q[0], qc.clbits[ins["b"]])
        elif ins["op"] == "reset":
            r = qc.reset(q[0])
        elif ins["op"] == "barrier":
            r = qc.barrier(*q)
        cd = ins["cond"]
        if cd["kind"] == "bit":
            r.c_if(qc.clbits[cd["i"]], cd["val"])
        elif cd["kind"] == "reg":
            r.c_if(cregs[cd["i"] - 1], cd["val"])
    return qc


def key(bits, regs):
    parts, at = [], 0
    for s in regs:
        parts.append("".join(str(b) for b in reversed(bits[at:at + s])))
        at += s
    return " ".join(reversed(parts))


def index(bits):
    return sum(b << i for i, b in enumerate(bits))


# ------------------------------------------------------------------ comparisons
def pvalue(k, n, p):
    if p >= 1.0:
        return 1.0 if k == n else 0.0
    lo, hi = binom.cdf(k, n, p), binom.sf(k - 1, n, p)
    return min(1.0, 2 * min(lo, hi))


def check_counts(counts, expect, shots, bad, what=""):
    if sum(counts.values()) != shots:
        bad.append(["COUNT", "%sthere are %d outcomes for %d shots" % (what, sum(counts.values()), shots)])
    for k in counts:
        if expect.get(k, 0.0) < 1e-12:
            bad.append(["SUPPORT", "%soutcome %r was reported %d times of %d but has probability 0; the exact distribution is %s"
                        % (what, k, counts[k], shots, short(expect))])
            return
    for k, p in expect.items():
        if pvalue(counts.get(k, 0), shots, min(p, 1.0)) < ALPHA:
            bad.append(["FREQ", "%soutcome %r was reported %d times of %d but has probability %.6f" % (what, k, counts.get(k, 0), shots, p)])
            return


def short(d):
    return {str(k): round(v, 6) for k, v in list(d.items())[:12]}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
        yield err


PROVIDER = None


def backend(name=None):
    global PROVIDER
    from qdd import QddProvider
    if PROVIDER is None:
        PROVIDER = QddProvider()
    return PROVIDER.get_backend(name)


def run(be, circs, **kw):
    """Result of a successful run, or None for a failed job."""
    with quiet() as err:
        job = be.run(circs, **kw)
        res = job.result()
        st = job.status()
    if st == JobStatus.ERROR or not res.success:
        if st != JobStatus.ERROR or res.success or len(res.results):
            raise AssertionError("inconsistent failure: status %s, success %s, %d results" % (st, res.success, len(res.results)))
        return None, (err.getvalue() or "")[-300:]
    return res, ""


def vary(case):
    """Run options that must not change any answer."""
    v = case.get("vary", {})
    o = dict(case.get("opts", {}))
    if "gc" in v:
        from qdd import pyQDD
        pyQDD.set_gc_thr(*v["gc"])
    if "show" in v:
        o.update(show_progress=True, show_progress_frequency=v["show"])
    if "threads" in v:
        o.update(n_threads=v["threads"])
    return o


def merged_call(qc, ins, q, bind=None):
    from qdd.qdd_gate import QDDGate
    with quiet():
        op = backend("statevector_simulator").merge_circuit(body_circuit(ins))
    qc.append(QDDGate(len(q), op), q)


def composite_call(qc, ins, q, bind=None):
    """The body as an instruction of its own, which has to be translated for the backend."""
    sub = body_circuit(ins)
    sub.name = "part"
    qc.append(sub.to_gate() if len(ins["body"]) % 2 else sub.to_instruction(), q)


# ------------------------------------------------------------------ modes
def m_counts(case, bad):
    circ = case["circ"]
    shots = case.get("shots", 256)
    raw = case.get("split") == "bits"       # qiskit prints bits by register, in the order of the registers
    exp = {key(b, [len(b)] if raw else circ["regs"]): p for b, p in distribution(circ).items()}
    qc = build(circ, case.get("split", 0))
    opts = vary(case)
    res, err = run(backend(), qc, shots=shots, memory=True, **opts)
    if res is None:
        bad.append(["REJECT", "a valid circuit was rejected: " + err])
        return
    counts = dict(res.data(0)["counts"] if raw else res.get_counts(qc))
    if opts.get("use_mpi"):
        from mpi4py import MPI
        everywhere = MPI.COMM_WORLD.allgather(counts)
        if any(x != counts for x in everywhere):
            bad.append(["COUNT", "the processes report different counts: %s" % everywhere])
    check_counts(counts, exp, shots, bad)
    mem = res.results[0].data.memory if raw else res.get_memory(qc)
    if dict(Counter(mem)) != counts:
        bad.append(["MEMORY", "the per-shot memory %s disagrees with the counts %s" % (dict(Counter(mem)), counts)])
    if res.results[0].shots != shots:
        bad.append(["COUNT", "the result says %s shots" % res.results[0].shots])
    # memory must look like independent shots, not like sorted counts: first-half frequencies agree
    half = Counter(mem[:shots // 2])
    for k, p in exp.items():
        if pvalue(half.get(k, 0), shots // 2, min(p, 1.0)) < ALPHA:
            bad.append(["MEMORY", "the first half of the memory holds %r %d times, probability %.4f" % (k, half.get(k, 0), p)])
            break


def m_exact(case, bad):
    circ = case["circ"]
    exp = {index(b): p for b, p in distribution(circ).items()}
    qc = build(circ, case.get("split", 0))
    be = backend()
    answers = []
    for _ in range(2):
        res, err = run(be, qc, shots=None, **case.get("opts", {}))
        if res is None:
            if case.get("must"):
                bad.append(["REJECT", "a circuit whose measurements are final was rejected: " + err])
            return
        answers.append({int(k): v for k, v in res.data(0)["probabilities"].items()})
    for got in answers:
        for k in set(exp) | set(got):
            if abs(exp.get(k, 0.0) - got.get(k, 0.0)) > TOL:
                bad.append(["PROB", "classical value %d is reported with probability %.9f, exact is %.9f; exact distribution %s"
                            % (k, got.get(k, 0.0), exp.get(k, 0.0), short(exp))])
                return
        if abs(sum(got.values()) - 1) > TOL:
            bad.append(["PROB", "probabilities add up to %.9f" % sum(got.values())])


def m_sv(case, bad):
    circ = case["circ"]
    exp = vector(circ["vec"]) * np.exp(1j * angle(circ["phase"]))
    qc = build(circ, case.get("split", 0), call=merged_call if case.get("calls") == "qdd" else None)
    be = backend("statevector_simulator")
    res, err = run(be, qc, shots=1, **vary(case))
    if res is None:
        bad.append(["REJECT", "a supported circuit was rejected: " + err])
        return
    got = np.array(res.data(0)["statevector"])
    if got.shape != exp.shape or np.max(np.abs(got - exp)) > TOL:
        bad.append(["SV", "statevector is %s, exact is %s" % (np.round(got[:16], 6).tolist(), np.round(exp[:16], 6).tolist())])


MODES = {"counts": m_counts, "exact": m_exact, "sv": m_sv}


def explain(e, case, bad, what=""):
    tb = traceback.extract_tb(e.__traceback__)
    # Qiskit 1.2 cannot optimize every circuit for a target with parametrised gates, nor define a conditional cu1 with an open control:
    # not the simulator's failure
    if any("/qiskit/transpiler/" in f.filename for f in tb) and (case.get("level", 0) >= 2 or isinstance(e, KeyError)):
        return
    bad.append(["EXC", "%s%s: %s (at %s)" % (what, type(e).__name__, str(e)[:300], "; ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))])


def main():
    if os.environ.get("QDD_HARNESS_MEM"):
        resource.setrlimit(resource.RLIMIT_AS, (int(os.environ["QDD_HARNESS_MEM"]),) * 2)
    world = None
    if int(os.environ.get("OMPI_COMM_WORLD_SIZE", 0)):      # under mpirun every process runs every case
        import qdd.pyQDD
        from mpi4py import MPI
        world = MPI.COMM_WORLD
    out = open(sys.argv[2] + (".%d" % world.Get_rank() if world else ""), "w")
    for extra in ("py_modes", "py_engine", "py_overlap"):
        try:
            MODES.update(__import__(extra).MODES)
        except ModuleNotFoundError as e:
            if e.name != extra:
                raise
    wrong = 0
    for i, line in enumerate(open(sys.argv[1])):
        case = json.loads(line)
        print(json.dumps({"start": i}), file=out, flush=True)
        bad = []
        try:
            MODES[case["mode"]](case, bad)
        except Exception as e:
            explain(e, case, bad)
        print(json.dumps({"i": i, "bad": bad}), file=out, flush=True)
        wrong += bool(bad)
        if wrong >= 5 and not world:
            break               # enough is known
        if world and any(b[0] in ("EXC", "REJECT") for b in bad):
            world.Abort(5)      # the other processes may be waiting for this one
    print(json.dumps({"done": True}), file=out, flush=True)


if __name__ == "__main__":
    sys.modules["py_driver"] = sys.modules["__main__"]
    main()
