"""Replays behaviours of spec/DDEngine.tla and spec/DDist.tla through the pyQDD bindings alone: every operation by the
overloads the module exports, every handle read back by every export that shows a state or an operator."""
import math, os, re, tempfile, time
from collections import Counter
import numpy as np
from py_driver import ALPHA, SQ2, amp, angle, broken, pvalue, quiet, weight
from qdd import pyQDD as Q

TOL = 1e-9
FIXED = {"I", "X", "Y", "Z", "H", "S", "Sdag", "T", "Tdag", "SX", "SXdag", "V", "Vdag"}
DRAWS = 100


class Bad(Exception):
    pass


def value(v):
    a = np.array([amp(e, v["k"], v["m"]) for e in v["a"]])
    return a / np.linalg.norm(a) if v.get("u") in ("unit", "ray") else a


def probs(w):
    p = np.array([x[0] + x[1] * SQ2 for x in w])
    return p / p.sum()


def captured(f):
    """What f prints through the C library."""
    with tempfile.TemporaryFile() as t:
        keep = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            r = f()
        finally:
            os.dup2(keep, 1)
            os.close(keep)
        t.seek(0)
        return r, t.read().decode()


NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?"


def number(text):
    """A complex number as the library prints it."""
    m = re.fullmatch(r"\(?\s*(%s)\s*(?:,\s*(%s))?\s*\)?" % (NUM, NUM), text.strip())
    if not m:
        raise Bad("cannot read the number %r" % text)
    return complex(float(m.group(1)), float(m.group(2) or 0))


def same(got, want, tol, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Bad("%s has shape %s instead of %s" % (what, got.shape, want.shape))
    d = np.abs(got - want)
    if not (d < tol).all():
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        raise Bad("%s: entry %s is %s, exact %s" % (what, i, got[i], want[i]))


def onto(got, want, u):
    """A state known up to a phase is turned to the phase of the exact one."""
    ph = np.vdot(want, got) if u == "ray" and np.shape(got) == want.shape else 0
    return np.asarray(got) / (ph / abs(ph)) if abs(ph) > 0.5 else np.asarray(got)


# ------------------------------------------------------------------ pictures
def picture(dot):
    """(root, root weight, {node: {index: (child, weight)}}) of a genDot text."""
    nodes, root, w = {}, None, None
    for l in dot.splitlines():
        m = re.fullmatch(r'\s*(\d+) \[label="(.*)"\]', l)
        e = re.fullmatch(r'\s*(\d+) -> (\d+) \[label="(\d)(.*)"\]', l)
        if e:
            nodes[e.group(1)][int(e.group(3))] = (e.group(2), number(e.group(4)))
        elif m and m.group(2).startswith("Term w="):
            term, w = m.group(1), number(m.group(2)[7:])
        elif m:
            root = root or m.group(1)
            nodes[m.group(1)] = {"q": m.group(2)}
    return root, w, nodes, term


def from_picture(dot, n):
    root, w, nodes, term = picture(dot)

    def vec(x, k):
        if x == term:
            return np.ones(1) if k == 0 else np.zeros(2 ** k)
        return np.concatenate([nodes[x][i][1] * vec(nodes[x][i][0], k - 1) for i in (0, 1)])
    return w * vec(root, n), len(nodes)


def from_mpicture(dot, n):
    root, w, nodes, term = picture(dot)

    def mat(x, k):
        if x == term:
            return np.eye(2 ** k)
        q = int(nodes[x]["q"][1:])
        if q < k - 1:
            return np.kron(np.eye(2), mat(x, k - 1))
        z = np.zeros((2 ** (k - 1),) * 2)
        c = [nodes[x][i][1] * mat(nodes[x][i][0], k - 1) if i in nodes[x] else z for i in range(4)]
        return np.block([[c[0], c[1]], [c[2], c[3]]])
    return w * mat(root, n), len(nodes)


def rays(v):
    """Number of nodes of the canonical diagram of a vector: the different directions among its aligned parts."""
    count, size = 0, len(v)
    while size > 1:
        seen = []
        for i in range(0, len(v), size):
            s = v[i:i + size]
            if np.linalg.norm(s) < 1e-12:
                continue
            s = s / np.linalg.norm(s)
            if not any(abs(abs(np.vdot(s, t)) - 1) < 1e-9 for t in seen):
                seen.append(s)
        count += len(seen)
        size //= 2
    return count


# ------------------------------------------------------------------ reading handles
class Reader:
    def __init__(self, case):
        self.k = case.get("turn", 0)
        self.strict = case.get("strict", False)

    def vector(self, e, v):
        want, u = value(v), v.get("u")
        n = len(want).bit_length() - 1
        if not np.any(want):
            return                      # the zero vector has no node to tell its length
        same(onto(Q.getVector(e), want, u), want, TOL, "getVector")
        self.k += 1
        turn = self.k % 6
        if turn == 0:
            same(onto(e.getEigenVector(), want, u), want, 1e-4, "getEigenVector")
        elif turn == 1:
            p = np.abs(want) ** 2
            if abs(p.sum() - 1) < 1e-9:
                same(Q.probabilities(e), p, TOL, "probabilities")
        elif turn == 2:
            _, out = captured(lambda: e.printVector())
            same(onto([number(x) for x in out.split("\n") if x.strip()], want, u), want, 2e-5 * max(1, abs(want).max()), "printVector")
        elif turn == 3:
            _, out = captured(lambda: e.printVector_sparse())
            got, listed = np.zeros(len(want), complex), set()
            for l in out.splitlines():
                i, x = l.split(": ")
                got[int(i, 2)] = number(x)
                listed.add(int(i, 2))
            big = np.array([abs(x) > 2e-3 for x in want])
            if any(b and i not in listed for i, b in enumerate(big)):
                raise Bad("printVector_sparse leaves out a large amplitude: %r" % out)
            same(onto(np.where(big, got, 0), np.where(big, want, 0), u), np.where(big, want, 0), 2e-5 * max(1, abs(want).max()), "printVector_sparse")
        elif turn == 4:
            dot, out = captured(lambda: Q.genDot(e))
            got, k = from_picture(dot, n)
            same(onto(got, want, u), want, 1e-4 * max(1, abs(want).max()), "the vector of the diagram that genDot draws")
            self.nodes(k, want, "genDot draws")
            if out.split()[:1] != [str(k)]:
                raise Bad("genDot says %r and draws %d nodes" % (out, k))
        else:
            self.nodes(Q.get_nNodes(e), want, "get_nNodes says")

    def nodes(self, k, want, what):
        r = rays(want)
        if (k != r) if self.strict else (k < r):
            raise Bad("%s %d nodes, the canonical diagram has %d" % (what, k, r))

    def operator(self, m, x):
        want = value(x)
        d = math.isqrt(len(want))
        n = d.bit_length() - 1
        want = want.reshape(d, d)
        same(m.getEigenMatrix(n), want, 1e-4 * max(1, abs(want).max()), "getEigenMatrix")
        # exactly, column by column
        e = Q.makeZeroState(n)
        at = 0
        for j in sorted(range(d), key=lambda j: j ^ (j >> 1)) if self.k % 2 else range(d):
            for b in range(n):
                if (at ^ j) >> b & 1:
                    e = Q.mv_multiply(Q.makeGate(n, "X", b), e)
            at = j
            r = Q.mv_multiply(m, e)
            if np.any(want[:, j]):
                same(Q.getVector(r), want[:, j], TOL, "column %d" % j)
        self.k += 1
        if self.k % 3 == 0:
            _, out = captured(lambda: m.printMatrix(n))
            rows = [re.findall(r"\([^)]*\)", l) for l in out.splitlines() if l.strip()]
            same([[number(y) for y in r] for r in rows], want, 2e-5 * max(1, abs(want).max()), "printMatrix")
        elif self.k % 3 == 1 and np.abs(want - want[0, 0] * np.eye(d)).max() > 1e-9:
            dot, _ = captured(lambda: Q.genDot(m))
            got, _ = from_mpicture(dot, n)
            same(got, want, 1e-4 * max(1, abs(want).max()), "the matrix of the diagram that genDot draws")


# ------------------------------------------------------------------ gates by every overload
def build(g, n, f):
    x = [angle(a) for a in g["x"]]
    P, N, T, name = list(g["P"]), list(g["Q"]), list(g["T"]), g["name"]
    half = {"rx": Q.rxmat, "ry": Q.rymat, "rz": Q.rzmat}
    if len(T) == 1:
        t = T[0]
        if f and not P and not N and name in half:
            return {"rx": Q.RX, "ry": Q.RY, "rz": Q.RZ}[name](n, t, 2 * x[0])
        if f and name == "X" and len(P) == 1 and not N:
            return Q.CX(n, t, P[0])
        if name in FIXED:
            m = name
        elif name in half:
            m = half[name](2 * x[0])
        elif name in ("p", "u1"):
            m = {"p": Q.p, "u1": Q.u1}[name](x[0])
        elif name == "u2":
            m = Q.u2(*x)
        else:
            m = {"u3": Q.u3, "u": Q.u, "r": Q.r}[name](2 * x[0], *x[1:])
        if not N and not P:
            return Q.makeGate(n, m, t) if f else Q.makeGate(n, m, t, [])
        if not N and f:
            return Q.makeGate(n, m, t, P)
        return Q.makeGate(n, m, t, P, N)
    lo, hi = T
    a = [2 * x[0]] if x else []
    if f and not P and not N:
        return {"swap": Q.SWAP, "iswap": Q.ISWAP, "rxx": Q.RXX, "ryy": Q.RYY, "rzz": Q.RZZ, "rzx": Q.RZX}[name](n, hi, lo, *a)
    if f and name == "swap" and len(P) == 1 and not N:
        return Q.CSWAP(n, hi, lo, P[0])
    m = {"swap": Q.swapmat, "iswap": Q.iswapmat, "rxx": Q.rxxmat, "ryy": Q.ryymat, "rzz": Q.rzzmat, "rzx": Q.rzxmat}[name](*a)
    if not N and not P:
        return Q.makeTwoQubitGate(n, m, hi, lo)
    if not N and f:
        return Q.makeTwoQubitGate(n, m, hi, lo, P)
    return Q.makeTwoQubitGate(n, m, hi, lo, P, N)


def large(r):
    y = value(r["y"])
    d = math.isqrt(len(y))
    y = y.reshape(d, d).tolist()
    if r["T"] == list(range(r["n"])):
        return Q.unitary(r["n"], y)
    return Q.unitary(r["n"], y, r["T"])


def frequencies(cnt, n, p, what):
    for i, x in enumerate(p):
        if cnt.get(i, 0) and x < 1e-13:
            raise Bad("%s %d has probability zero" % (what, i))
        if pvalue(cnt.get(i, 0), n, min(float(x), 1.0)) < ALPHA:
            raise Bad("%s %d in %d of %d measurements, probability %.6f" % (what, i, cnt.get(i, 0), n, x))


def draw(once, want, p, what):
    """Repeats a measurement; returns the state behind the wanted outcome."""
    cnt, have, n = Counter(), None, 0
    while n < DRAWS or (have is None and n < max(DRAWS, 60 / p[want])):
        e, i = once()
        cnt[i] += 1
        n += 1
        if i == want and have is None:
            have = e
    frequencies(cnt, n, p, what)
    if have is None:
        raise Bad("%s %d never came in %d measurements, probability %.6f" % (what, want, n, p[want]))
    return have


def bits(s, n):
    if len(s) != n or set(s) - set("01"):
        raise Bad("the outcome %r is not a string of %d bits" % (s, n))
    return int(s, 2)


def bit(c):
    if c not in ("0", "1"):
        raise Bad("the outcome %r is neither 0 nor 1" % (c,))
    return int(c)


# ------------------------------------------------------------------ one behaviour
def m_engine(case, bad):
    V, M, rd = {}, {}, Reader(case)
    dist = case["t"][0]["op"][0] == "d"
    for step, r in enumerate(case["t"], 1):
        try:
            with quiet():
                (dstep if dist and r["op"][0] == "d" else do)(r, V, M, rd)
        except (Bad, KeyError, ValueError, IndexError, TypeError, RuntimeError) as x:
            bad.append([r["op"], "step %d (%s): %s%s" % (step, r["op"], "" if isinstance(x, Bad) else type(x).__name__ + ": ", x)])
            return


def do(r, V, M, rd):
    o = r["op"]
    if o == "new":
        e = Q.makeZeroState(r["n"])
        for b in range(r["n"] if r["one"] else 0):
            e = Q.mv_multiply(Q.makeGate(r["n"], "X", b), e)
        V[r["d"]] = e
        rd.vector(e, r["v"])
    elif o == "vgate":
        n = len(r["v"]["a"]).bit_length() - 1
        V[r["d"]] = Q.mv_multiply(build(r["g"], n, r["f"]), V[r["s"]])
        rd.vector(V[r["d"]], r["v"])
    elif o == "mgate":
        M[r["d"]] = build(r["g"], r["n"], r["f"])
        rd.operator(M[r["d"]], r["x"])
    elif o == "mlarge":
        M[r["d"]] = large(r)
        rd.operator(M[r["d"]], r["x"])
    elif o == "mmul":
        M[r["d"]] = Q.mm_multiply(M[r["l"]], M[r["r"]])
        rd.operator(M[r["d"]], r["x"])
    elif o == "mapply":
        V[r["d"]] = Q.mv_multiply(M[r["l"]], V[r["s"]])
        rd.vector(V[r["d"]], r["v"])
    elif o == "measure":
        src = V[r["s"]]

        def once():
            e, c = Q.measureOneCollapsing(src, r["q"])
            return e, bit(c)
        # the argument is collapsed in place, so every draw starts from a copy
        keep = Q.applyGlobal(src, 0.0)

        def fresh():
            nonlocal src
            src = Q.applyGlobal(keep, 0.0)
            return once()
        p = probs(r["w"])
        V[r["s"]] = keep
        V[r["d"]] = draw(fresh, r["b"], p, "outcome of qubit %d:" % r["q"])
        rd.vector(V[r["d"]], r["v"])
    elif o == "measureall":
        keep, n = V[r["s"]], len(r["v"]["a"]).bit_length() - 1

        def fresh():
            e, s = Q.measureAll(Q.applyGlobal(keep, 0.0), True)
            return e, bits(s, n)
        V[r["d"]] = draw(fresh, r["i"], probs(r["w"]), "outcome")
        rd.vector(V[r["d"]], r["v"])
    elif o == "query":
        p, e = probs(r["w"]), V[r["s"]]
        n = len(p).bit_length() - 1
        if r["kind"] == "probs":
            same(Q.probabilities(e), p, TOL, "probabilities")
        elif r["kind"] == "one":
            _, got = Q.measureOne(e, r["q"])
            want = sum(x for i, x in enumerate(p) if not i >> r["q"] & 1)
            if not abs(got - want) < TOL:
                raise Bad("measureOne says %.9f for qubit %d, exact %.9f" % (got, r["q"], want))
        else:
            frequencies(Counter(bits(Q.measureAll(e, False)[1], n) for _ in range(DRAWS)), DRAWS, p, "outcome")
        rd.vector(V[r["s"]], r["v"])
    elif o in ("gcv", "gcm"):
        H, xs = (V, r["vs"]) if o == "gcv" else (M, r["xs"])
        if not r["force"]:
            Q.set_gc_thr(4, 4)
        collect = Q.gc if o == "gcv" else Q.gc_mat
        hs = [H[h] for h in r["keep"]]
        hs = [collect(hs[0], True)] if len(hs) == 1 and r["force"] else collect(hs, bool(r["force"]))
        if len(hs) != len(r["keep"]):
            raise Bad("the collection returned %d of %d" % (len(hs), len(r["keep"])))
        H.clear()
        for h, e, x in zip(r["keep"], hs, xs):
            H[h] = e
            (rd.vector if o == "gcv" else rd.operator)(e, x)
    elif o == "store":
        name = "state.%d.bin" % os.getpid()
        Q.save_binary(V[r["s"]], name)
        V[r["d"]] = Q.load_binary(name)
        os.unlink(name)
        rd.vector(V[r["d"]], r["v"])
    else:
        raise ValueError("operation " + o)


# ------------------------------------------------------------------ distributed
def world():
    from mpi4py import MPI
    return MPI.COMM_WORLD


def everywhere(x):
    if any(y != x for y in world().allgather(x)):
        raise Bad("the processes disagree: %s" % (world().allgather(x),))
    return x


def agree(f):
    """Every process learns whether a comparison failed anywhere, so that all of them stop together."""
    text = ""
    try:
        f()
    except Bad as x:
        text = str(x)
    for t in world().allgather(text):
        if t:
            raise Bad(t)


def dread(e, v, rd):
    want, u = value(v), v.get("u")
    n = len(want).bit_length() - 1
    if not np.any(want):
        return
    rd.k += 1
    got = Q.getVectorMPI(e)
    agree(lambda: same(onto(got, want, u), want, TOL, "getVectorMPI"))
    p = np.abs(want) ** 2
    if rd.k % 3 == 0 and abs(p.sum() - 1) < 1e-9:
        pr = Q.probabilitiesMPI(e)
        agree(lambda: same(pr, p, TOL, "probabilitiesMPI"))
    elif rd.k % 3 == 1:
        _, out = captured(lambda: e.printVectorMPI())

        def check():
            if world().Get_rank():
                if out.strip():
                    raise Bad("a process other than the first prints the state")
                return
            size = len(want) // world().Get_size()
            got = []
            for l in out.splitlines():
                got += [0] * size if l.startswith("(all 0)") else [number(l)]
            same(onto(got, want, u), want, 2e-5 * max(1, abs(want).max()), "printVectorMPI")
        agree(check)


def dstep(r, V, M, rd):
    o = r["op"]
    if o == "dnew":
        V[r["d"]] = (Q.makeOneStateMPI if r["one"] else Q.makeZeroStateMPI)(r["n"])
        dread(V[r["d"]], r["v"], rd)
    elif o in ("dgate", "dapply"):
        n = len(r["v"]["a"]).bit_length() - 1
        m = build(r["g"], n, r["f"]) if o == "dgate" else M[r["l"]]
        V[r["d"]] = (Q.mv_multiply_MPI if r["sch"] == "ring" else Q.mv_multiply_MPI_bcast)(m, V[r["s"]], n, r["top"])
        dread(V[r["d"]], r["v"], rd)
    elif o == "dmeasure":
        n, keep = len(r["v"]["a"]).bit_length() - 1, V[r["s"]]

        def fresh():
            e, c = Q.measureOneCollapsingMPI(Q.applyGlobal(keep, 0.0), r["q"], n)
            return e, everywhere(bit(c))
        V[r["d"]] = draw(fresh, r["b"], probs(r["w"]), "outcome of qubit %d:" % r["q"])
        dread(V[r["d"]], r["v"], rd)
    elif o == "dquery":
        p, e = probs(r["w"]), V[r["s"]]
        n = len(p).bit_length() - 1
        if r["kind"] == "probs":
            pr = Q.probabilitiesMPI(e)
            agree(lambda: same(pr, p, TOL, "probabilitiesMPI"))
        elif r["kind"] == "one":
            _, got = Q.measureOneMPI(e, r["q"], n)
            want = sum(x for i, x in enumerate(p) if not i >> r["q"] & 1)
            if not abs(everywhere(got) - want) < TOL:
                raise Bad("measureOneMPI says %.9f for qubit %d, exact %.9f" % (got, r["q"], want))
        else:
            frequencies(Counter(everywhere(bits(Q.measureAllMPI(e, False)[1], n)) for _ in range(DRAWS)), DRAWS, p, "outcome")
        dread(V[r["s"]], r["v"], rd)
    elif o == "dgcv":
        if not r["force"]:
            Q.set_gc_thr(4, 4)
        hs = Q.gc([V[h] for h in r["keep"]], bool(r["force"]))
        V.clear()
        for h, e, x in zip(r["keep"], hs, r["vs"]):
            V[h] = e
            dread(e, x, rd)
    else:
        raise ValueError("operation " + o)


# ------------------------------------------------------------------ wide registers (spec/QBlocks.tla, Mode = "engine")
def m_wengine(case, bad):
    """A product of blocks built gate by gate: the size of its diagram, its outcomes, and the way back to |0..0>."""
    c, turn = case["circ"], case["turn"]
    n, eng = c["n"], c["eng"]
    step = 0
    try:
        with quiet():
            e = Q.makeZeroState(n)
            for part in ("there", "back"):
                for step, g in enumerate(eng[part], 1):
                    t = time.monotonic()
                    e = Q.mv_multiply(build(g, n, (step + turn) % 2), e)
                    if (step + turn) % 17 == 0:
                        e = Q.gc([e], bool(turn % 2))[0]
                    if time.monotonic() - t > case["patience"]:
                        raise Bad("a gate on %d qubits took %.1f s" % (n, time.monotonic() - t))
                if case.get("save") and turn % 3 == 0:
                    with tempfile.TemporaryDirectory() as d:
                        Q.save_binary(e, os.path.join(d, "s"))
                        e = Q.load_binary(os.path.join(d, "s"))
                k, want = Q.get_nNodes(e), n if part == "back" else eng["nodes"]
                if (k != want) if case["strict"] else not want <= k <= want + case["slack"]:
                    raise Bad("the diagram of %d qubits has %d nodes, the canonical one %d" % (n, k, want))
                if part == "there":
                    blocks(e, c)
                    if turn % 2 and case["operator"]:
                        operator(c, case["patience"], turn, e)
            for _ in range(20):
                if bits(Q.measureAll(e, False)[1], n):
                    raise Bad("the gates and their inverses do not lead back to |0..0>")
            _, out = captured(lambda: e.printVector_sparse())
            i, x = out.splitlines()[0].split(": ")
            if int(i, 2) or abs(number(x) - 1) > 1e-5:
                raise Bad("the gates and their inverses lead to %r instead of |0..0>" % out.splitlines()[0])
    except (Bad, KeyError, ValueError, IndexError, TypeError, RuntimeError, MemoryError) as x:
        bad.append(["wengine", "gate %d: %s%s" % (step, "" if isinstance(x, Bad) else type(x).__name__ + ": ", x)])


def operator(c, patience, turn, e):
    """The same gates multiplied into one operator: it makes the same state, and its inverse makes it the identity."""
    n, eng = c["n"], c["eng"]
    x = Q.makeGate(n, "I", 0)
    for part in ("there", "back"):
        for step, g in enumerate(eng[part], 1):
            t = time.monotonic()
            x = Q.mm_multiply(build(g, n, (step + turn) % 2), x)
            if (step + turn) % 19 == 0:
                x = Q.gc_mat([x], True)[0]
            if time.monotonic() - t > patience:
                raise Bad("a product with gate %d on %d qubits took %.1f s" % (step, n, time.monotonic() - t))
        if part == "there":
            y = Q.mv_multiply(x, Q.makeZeroState(n))
            k = Q.get_nNodes(y)
            if k != eng["nodes"]:
                raise Bad("the operator of all gates makes a diagram of %d nodes, the canonical one has %d" % (k, eng["nodes"]))
            blocks(y, c)
    k = Q.get_nNodes(Q.mv_multiply(x, e))
    if k != eng["nodes"]:
        raise Bad("the operator of gates and inverses turns a diagram of %d nodes into %d" % (eng["nodes"], k))


def blocks(e, c):
    rows = [bits(Q.measureAll(e, False)[1], c["n"]) for _ in range(DRAWS)]
    for k in rows:
        r = broken(c.get("rel", ()), lambda b: k >> b & 1)
        if r:
            raise Bad("outcome %d of %d qubits is impossible: qubit %d must be bit %d of a sum" % (k, c["n"], r["b"], r["j"]))
    for b in c["dist"]:
        p = np.zeros(2 ** len(b["q"]))
        for x in b["d"]:
            p[sum(v << i for i, v in enumerate(x["c"]))] += weight(x["w"])
        frequencies(Counter(sum((r >> q & 1) << i for i, q in enumerate(b["q"])) for r in rows), DRAWS, p, "qubits %s: outcome" % b["q"])


MODES = {"engine": m_engine, "wengine": m_wengine}
