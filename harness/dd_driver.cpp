// Replays behaviours of spec/DDEngine.tla through the decision-diagram engine
// and compares every answer with the exact one the specification gives.
//
// usage: dd_driver SCRIPT REPORT [seed] [flags]
// SCRIPT is a token stream written by tools/ddscript.py.  REPORT receives a
// line "begin T" when a behaviour starts, "bad T STEP OP TAG text" when an
// answer differs, and "end T STEPS" when it is finished.
#include "common.h"
#include "dd.h"
#include "table.hpp"
#include <boost/math/distributions/binomial.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
#ifdef isMPI
#include <boost/mpi.hpp>
static bmpi::communicator *World = nullptr;
#endif
#ifdef isMT
#include "task.h"
#endif

using cd = std::complex<double>;
static const double TOL = 1e-9;
static FILE *rep;
static std::ifstream in;
static long tid = 0;
static int step = 0;
static bool failed = false, repeatOps = false, checkNodes = false, eigen = false;
static int draws = 300;
static std::string curop;

static void bad(const char *tag, const std::string &text) {
    fprintf(rep, "bad %ld %d %s %s %s\n", tid, step, curop.c_str(), tag, text.c_str());
    fflush(rep);
    failed = true;
}

static long geti() { long x; if (!(in >> x)) { fprintf(stderr, "script ends early\n"); exit(3); } return x; }
static std::string gets_() { std::string s; in >> s; return s; }

struct Val {            // exact value, as complex doubles
    std::string u = "raw";
    std::vector<cd> a;
};
static cd ring(long a, long b, long c, long d) {
    const long double h = 0.70710678118654752440084436210484903928L;
    return cd((double)(a + (b - d) * h), (double)(c + (b + d) * h));
}
static Val getval() {
    Val v;
    v.u = gets_();
    long k = geti(), m = geti(), n = geti();
    double den = std::pow(2.0L, k / 2.0L) * std::pow(5.0L, (long double)m);
    for (long i = 0; i < n; i++) {
        long a = geti(), b = geti(), c = geti(), d = geti();
        v.a.push_back(ring(a, b, c, d) / den);
    }
    if (v.u == "unit" || v.u == "ray") {
        double s = 0;
        for (auto &z : v.a) s += std::norm(z);
        s = std::sqrt(s);
        for (auto &z : v.a) z /= s;
    }
    return v;
}
static std::vector<double> getweights() {   // pairs p + q*sqrt2, normalised to probabilities
    long n = geti();
    std::vector<double> w;
    double s = 0;
    for (long i = 0; i < n; i++) { long p = geti(), q = geti(); w.push_back(p + q * std::sqrt(2.0)); s += w.back(); }
    for (auto &x : w) x /= s;
    return w;
}

static std::map<int, vEdge> V;
static std::map<int, mEdge> M;
static std::map<int, int> VQ, MQ;

static std::string show(cd z) { char b[80]; snprintf(b, sizeof b, "%.10g%+.10gi", z.real(), z.imag()); return b; }

static int logn(size_t d) { int n = 0; while ((size_t(1) << n) < d) n++; return n; }

// ---- reading results through the public read-out -----------------------------------
static bool readv(const vEdge &e, size_t dim, std::vector<cd> &out) {
    out.assign(dim, 0);
    if (e.isTerminal()) {
        if (std::abs(cd(e.w.r, e.w.i)) > TOL) { bad("VAL", "terminal edge with weight for a state"); return false; }
        return true;
    }
    if ((size_t(1) << (e.getVar() + 1)) != dim) { bad("VAL", "state has " + std::to_string(e.getVar() + 1) + " qubits, expected dimension " + std::to_string(dim)); return false; }
    size_t d;
    std_complex *p = e.getVector(&d);
    for (size_t i = 0; i < d; i++) out[i] = cd(p[i].r, p[i].i);
    delete[] p;
    return true;
}
static void readm(const mEdge &e, int n, std::vector<cd> &out) {
    size_t d;
    std_complex **p = e.getMatrix(&d, n);
    out.clear();
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) out.push_back(cd(p[i][j].r, p[i][j].i));
    for (size_t i = 0; i < d; i++) delete[] p[i];
    delete[] p;
}
static double scale(const std::vector<cd> &a) { double m = 1; for (auto &z : a) m = std::max(m, std::abs(z)); return m; }
static bool close(const std::vector<cd> &got, const std::vector<cd> &want, double tol, std::string &msg) {
    double s = scale(want);
    if (got.size() != want.size()) { msg = "dimension " + std::to_string(got.size()) + " expected " + std::to_string(want.size()); return false; }
    for (size_t i = 0; i < got.size(); i++)
        if (!(std::abs(got[i] - want[i]) <= tol * s)) {
            msg = "entry " + std::to_string(i) + " is " + show(got[i]) + " expected " + show(want[i]);
            return false;
        }
    return true;
}
static bool checkv(const vEdge &e, const Val &want, const char *tag = "VAL") {
    std::vector<cd> got;
    if (!readv(e, want.a.size(), got)) return false;
    if (want.u == "ray") {
        cd ph = 0;
        for (size_t i = 0; i < got.size(); i++) ph += std::conj(want.a[i]) * got[i];
        if (std::abs(ph) > 0.5) for (auto &z : got) z /= ph / std::abs(ph);
    }
    std::string msg;
    if (!close(got, want.a, TOL, msg)) { bad(tag, msg); return false; }
    if (eigen && !e.isTerminal()) {
        vEdge c = e;
        VectorXcf x = c.getEigenVector();
        if ((size_t)x.size() != want.a.size()) { bad(tag, "getEigenVector has the wrong size"); return false; }
        std::vector<cd> g2;
        for (int i = 0; i < x.size(); i++) g2.push_back(cd(x(i).real(), x(i).imag()));
        if (want.u != "ray" && !close(g2, want.a, 1e-4, msg)) { bad(tag, "getEigenVector: " + msg); return false; }
    }
    return true;
}
static bool checkm(const mEdge &e, int n, const Val &want, const char *tag = "VAL") {
    std::vector<cd> got;
    std::string msg;
    if (e.getVar() >= n) { bad(tag, "operator acts on qubit " + std::to_string(e.getVar())); return false; }
    readm(e, n, got);
    if (!close(got, want.a, TOL, msg)) { bad(tag, msg); return false; }
    if (n <= 3) {        // read out one qubit wider: identity on the new qubit
        size_t d = size_t(1) << n;
        std::vector<cd> wide(4 * d * d, 0);
        for (size_t r = 0; r < d; r++) for (size_t c = 0; c < d; c++) {
            wide[r * 2 * d + c] = want.a[r * d + c];
            wide[(r + d) * 2 * d + c + d] = want.a[r * d + c];
        }
        readm(e, n + 1, got);
        if (!close(got, wide, TOL, msg)) { bad(tag, "read out on one more qubit: " + msg); return false; }
    }
    if (eigen) {
        mEdge c = e;
        MatrixXcf x = c.getEigenMatrix(n);
        std::vector<cd> g2;
        for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) g2.push_back(cd(x(i, j).real(), x(i, j).imag()));
        if (!close(g2, want.a, 1e-4, msg)) { bad(tag, "getEigenMatrix: " + msg); return false; }
    }
    return true;
}

// ---- structure of the diagrams -----------------------------------------------------
static bool unitw(const std_complex &w) { return std::abs(cd(w.r, w.i) - cd(1, 0)) < 1e-12; }
static bool zerow(const std_complex &w) { return std::abs(w.r) < 1e-12 && std::abs(w.i) < 1e-12; }
template <class Node, size_t K> static bool structure(Node *root, std::set<Node *> &seen,
        std::map<std::vector<long long>, Node *> &store, bool vec) {
    if (root == Node::terminal || seen.count(root)) return true;
    seen.insert(root);
    double best = 0;
    bool one = false;
    for (size_t i = 0; i < K; i++) {
        auto &c = root->children[i];
        if (c.n == nullptr) { bad("NODE", "child without node"); return false; }
        best = std::max(best, std::abs(cd(c.w.r, c.w.i)));
        if (c.w.r == 1.0 && c.w.i == 0.0) one = true;
        if (zerow(c.w) && c.n != Node::terminal) { bad("NODE", "zero edge below qubit " + std::to_string(root->v) + " does not end in the terminal"); return false; }
        if (c.n != Node::terminal) {
            if (c.n->v >= root->v || c.n->v < 0) { bad("NODE", "qubit " + std::to_string(c.n->v) + " below qubit " + std::to_string(root->v)); return false; }
            if (vec && c.n->v != root->v - 1) { bad("NODE", "level skipped below qubit " + std::to_string(root->v)); return false; }
        } else if (vec && root->v != 0 && !zerow(c.w)) { bad("NODE", "terminal child above qubit 0"); return false; }
    }
    if (!one || best > 1 + 1e-9) { bad("NODE", "children of a node at qubit " + std::to_string(root->v) + " not normalised: largest weight " + std::to_string(best)); return false; }
    if (!vec && K == 4) {
        auto &c = root->children;
        if (c[0].n == c[3].n && zerow(c[1].w) && zerow(c[2].w) && std::abs(c[0].w.r - c[3].w.r) < 1e-13 && std::abs(c[0].w.i - c[3].w.i) < 1e-13) {
            bad("NODE", "identity structure at qubit " + std::to_string(root->v) + " not removed");
            return false;
        }
    }
    std::vector<long long> key{root->v};
    for (size_t i = 0; i < K; i++) {
        auto &c = root->children[i];
        double re = c.w.r + 0.0, im = c.w.i + 0.0;
        long long a, b;
        memcpy(&a, &re, 8); memcpy(&b, &im, 8);
        key.push_back(a); key.push_back(b); key.push_back((long long)(size_t)c.n);
    }
    auto r = store.emplace(key, root);
    if (!r.second && r.first->second != root) { bad("NODE", "the same node is stored twice at qubit " + std::to_string(root->v)); return false; }
    for (size_t i = 0; i < K; i++)
        if (!structure<Node, K>(root->children[i].n, seen, store, vec)) return false;
    return true;
}
static void checkStructure() {
    std::set<vNode *> sv; std::map<std::vector<long long>, vNode *> tv;
    for (auto &p : V) if (!structure<vNode, 2>(p.second.n, sv, tv, true)) return;
    std::set<mNode *> sm; std::map<std::vector<long long>, mNode *> tm;
    for (auto &p : M) if (!structure<mNode, 4>(p.second.n, sm, tm, false)) return;
    // asking for a stored node again gives that node
    for (auto *n : sv) {
        vEdge e = makeVEdge(n->v, n->children);
        if (e.n != n || !unitw(e.w)) { bad("NODE", "looking up a reachable vector node at qubit " + std::to_string(n->v) + " gives another node"); return; }
    }
    for (auto *n : sm) {
        mEdge e = makeMEdge(n->v, n->children);
        if (e.n != n || !unitw(e.w)) { bad("NODE", "looking up a reachable operator node at qubit " + std::to_string(n->v) + " gives another node"); return; }
    }
}

// ---- gates ---------------------------------------------------------------------------
struct Gate { std::string name; std::vector<double> x; std::vector<int> T, P, Q; };
static Gate getgate() {
    Gate g;
    g.name = gets_();
    long n = geti();
    for (long i = 0; i < n; i++) { long j = geti(), k = geti(); g.x.push_back(j * PI / 4 + k * std::atan2(4.0, 3.0)); }
    n = geti(); for (long i = 0; i < n; i++) g.T.push_back(geti());
    n = geti(); for (long i = 0; i < n; i++) g.P.push_back(geti());
    n = geti(); for (long i = 0; i < n; i++) g.Q.push_back(geti());
    return g;
}
static bool one(const Gate &g, GateMatrix &m) {
    auto &x = g.x;
    static const std::map<std::string, GateMatrix> fixed{
        {"I", Imat}, {"X", Xmat}, {"Y", Ymat}, {"Z", Zmat}, {"H", Hmat}, {"S", Smat}, {"Sdag", Sdagmat},
        {"T", Tmat}, {"Tdag", Tdagmat}, {"SX", SXmat}, {"SXdag", SXdagmat}, {"V", Vmat}, {"Vdag", Vdagmat}};
    auto it = fixed.find(g.name);
    if (it != fixed.end()) { m = it->second; return true; }
    if (g.name == "rx") m = rx(2 * x[0]);
    else if (g.name == "ry") m = ry(2 * x[0]);
    else if (g.name == "rz") m = rz(2 * x[0]);
    else if (g.name == "p") m = p(x[0]);
    else if (g.name == "u1") m = u1(x[0]);
    else if (g.name == "u2") m = u2(x[0], x[1]);
    else if (g.name == "u3") m = u3(2 * x[0], x[1], x[2]);
    else if (g.name == "u") m = u(2 * x[0], x[1], x[2], x[3]);
    else if (g.name == "r") m = r(2 * x[0], x[1]);
    else return false;
    return true;
}
static mEdge build(const Gate &g, int n, int flavour) {
    Controls c;
    for (int q : g.P) c.emplace(Control{q, Control::Type::pos});
    for (int q : g.Q) c.emplace(Control{q, Control::Type::neg});
    GateMatrix m;
    if (one(g, m)) {
        int t = g.T[0];
        if (flavour && c.empty()) {
            if (g.name == "rx") return RX(n, t, 2 * g.x[0]);
            if (g.name == "ry") return RY(n, t, 2 * g.x[0]);
            if (g.name == "rz") return RZ(n, t, 2 * g.x[0]);
            if (g.x.size() > 2) {
                ComplexMatrix cm{{m[0], m[1]}, {m[2], m[3]}};
                return makeLargeGate(n, cm, {t});
            }
            return makeGate(n, m, t);
        }
        if (flavour && g.name == "X" && g.P.size() == 1 && g.Q.empty()) return CX(n, t, g.P[0]);
        return makeGate(n, m, t, c);
    }
    int lo = g.T[0], hi = g.T[1];           // T[0] is the least significant index bit
    double a = g.x.empty() ? 0 : 2 * g.x[0];
    if (flavour && c.empty()) {
        if (g.name == "swap") return SWAP(n, hi, lo);
        if (g.name == "iswap") return ISWAP(n, hi, lo);
        if (g.name == "rxx") return RXX(n, hi, lo, a);
        if (g.name == "ryy") return RYY(n, hi, lo, a);
        if (g.name == "rzz") return RZZ(n, hi, lo, a);
        if (g.name == "rzx") return RZX(n, hi, lo, a);
    }
    if (flavour && g.name == "swap" && g.P.size() == 1 && g.Q.empty()) return CSWAP(n, hi, lo, g.P[0]);
    TwoQubitGateMatrix tm;
    if (g.name == "swap") tm = swap_matrix();
    else if (g.name == "iswap") tm = iswap_matrix();
    else if (g.name == "rxx") tm = rxx_matrix(a);
    else if (g.name == "ryy") tm = ryy_matrix(a);
    else if (g.name == "rzz") tm = rzz_matrix(a);
    else if (g.name == "rzx") tm = rzx_matrix(a);
    else { fprintf(stderr, "unknown gate %s\n", g.name.c_str()); exit(3); }
    if (flavour == 0 && c.empty()) return makeTwoQubitGate(n, tm, hi, lo);
    return makeTwoQubitGate(n, tm, hi, lo, c);
}

// repeating an operation gives the same node
template <class F> static auto again(F f) -> decltype(f()) {
    auto e = f();
    if (repeatOps) {
        auto e2 = f();
        if (e2.n != e.n || std::abs(cd(e.w.r - e2.w.r, e.w.i - e2.w.i)) > 1e-9 * std::max(1.0, std::abs(cd(e.w.r, e.w.i)))) {
            std::ostringstream o;
            o << "repeating the operation gives another edge: " << e.n << " " << e.w << " and " << e2.n << " " << e2.w;
            bad("NODE", o.str());
        }
    }
    return e;
}

// a vector or operator built bottom-up from its exact entries
static vEdge loadv(const std::vector<cd> &a, size_t lo, size_t n) {
    if (n == 1) return {{a[lo].real(), a[lo].imag()}, vNode::terminal};
    vEdge e0 = loadv(a, lo, n / 2), e1 = loadv(a, lo + n / 2, n / 2);
    if (zerow(e0.w)) e0 = vEdge::zero;
    if (zerow(e1.w)) e1 = vEdge::zero;
    return makeVEdge(logn(n) - 1, {e0, e1});
}
static mEdge loadm(const std::vector<cd> &a, size_t D, size_t r, size_t c, size_t n) {
    if (n == 1) { cd z = a[r * D + c]; return {{z.real(), z.imag()}, mNode::terminal}; }
    size_t h = n / 2;
    std::array<mEdge, 4> e{loadm(a, D, r, c, h), loadm(a, D, r, c + h, h), loadm(a, D, r + h, c, h), loadm(a, D, r + h, c + h, h)};
    for (auto &x : e) if (zerow(x.w)) x = mEdge::zero;
    return makeMEdge(logn(n) - 1, e);
}

// two-sided test of k successes in n trials against probability p; false alarm below 1e-10
static bool plausible(long k, long n, double p, double tail = 5e-11) {
    if (p < 1e-13) return k == 0;
    if (p > 1 - 1e-13) return k == n;
    boost::math::binomial_distribution<double> b((double)n, p);
    double lo = boost::math::cdf(b, (double)k);
    double hi = k == 0 ? 1.0 : boost::math::cdf(boost::math::complement(b, (double)(k - 1)));
    return lo > tail && hi > tail;
}

#ifdef isMPI
// ---- distributed states (spec/DDist.tla): rank r owns the amplitudes whose top bits are r --------------------------
static bool distChk(const vEdge &e, const Val &want, const char *tag) {
    size_t np = World->size(), loc = want.a.size() / np;
    Val mine;
    mine.a.assign(want.a.begin() + World->rank() * loc, want.a.begin() + (World->rank() + 1) * loc);
    return checkv(e, mine, tag);
}
static bool distSync() {        // all ranks learn that one of them failed
    bool any = bmpi::all_reduce(*World, failed, std::logical_or<bool>());
    failed = any;
    return !any;
}
static vEdge distApply(const mEdge &m, const vEdge &v, int n, int top, const std::string &sch) {
    return sch == "ring" ? mv_multiply_MPI(m, v, *World, n, top) : mv_multiply_MPI_bcast3(m, v, *World, n, top);
}
template <class X> static bool sameEverywhere(const X &x) {
    std::vector<X> all;
    bmpi::all_gather(*World, x, all);
    for (auto &y : all) if (!(y == all[0])) return false;
    return true;
}
static bool distRun(const std::string &op, std::mt19937_64 &mt) {
    size_t np = World->size();
    if (op == "dnew") {
        int d = geti(), n = geti(), o = geti(); Val v = getval();
        V[d] = o ? makeOneStateMPI(n, *World) : makeZeroStateMPI(n, *World);
        distChk(V[d], v, "VAL");
    } else if (op == "dgate") {
        int d = geti(), s = geti(); Gate g = getgate(); int f = geti(), top = geti(); std::string sch = gets_(); Val v = getval();
        int n = logn(v.a.size());
        vEdge e = distApply(build(g, n, f), V.at(s), n, top, sch);
        V[d] = e; distChk(e, v, "VAL");
    } else if (op == "dapply") {
        int d = geti(), l = geti(), s = geti(), top = geti(); std::string sch = gets_(); Val v = getval();
        vEdge e = distApply(M.at(l), V.at(s), logn(v.a.size()), top, sch);
        V[d] = e; distChk(e, v, "VAL");
    } else if (op == "dadd") {
        int d = geti(), l = geti(), r = geti(); Val v = getval();
        V[d] = vv_add(V.at(l), V.at(r));
        distChk(V[d], v, "VAL");
    } else if (op == "dmeasure") {
        int d = geti(), s = geti(), q = geti(), b = geti();
        std::vector<double> w = getweights(); Val v = getval();
        int n = logn(v.a.size());
        vEdge src = V.at(s), out = src;
        long n1 = 0, k = 0, limit = std::max<long>(draws, (long)(40 / w[b]));
        bool have = false, same = true, impossible = false;
        for (; k < draws || (!have && k < limit); k++) {
            vEdge c = src;
            char r = measureOneCollapsingMPI(*World, c, q, n, mt, true);
            same = sameEverywhere(r) && same;
            if (!same || (r != '0' && r != '1')) break;
            if (w[r - '0'] < 1e-13) { impossible = true; break; }
            n1 += r == '1';
            if (r - '0' == b) { if (!have) out = c; have = true; }
        }
        if (!same) bad("MEAS", "processes disagree about the outcome");
        else if (impossible) bad("MEAS", "outcome of qubit " + std::to_string(q) + " has probability zero");
        else if (!plausible(n1, k, w[1])) bad("MEAS", "qubit " + std::to_string(q) + " read 1 in " + std::to_string(n1) + " of " + std::to_string(k) + " measurements, probability " + std::to_string(w[1]));
        else if (!have) bad("MEAS", "possible outcome never returned");
        else { V[d] = out; distChk(out, v, "MEAS"); }
    } else if (op == "dquery") {
        int s = geti(), q = geti(); std::string kind = gets_();
        std::vector<double> w = getweights(); Val v = getval();
        int n = logn(v.a.size());
        vEdge e = V.at(s);
        if (kind == "probs") {
            auto pr = probabilitiesMPI(*World, e);
            if (pr.size() != w.size()) bad("MEAS", "probabilitiesMPI() has " + std::to_string(pr.size()) + " entries");
            else for (size_t i = 0; i < w.size(); i++)
                if (!(std::abs(pr[i] - w[i]) < 1e-9)) { bad("MEAS", "probability of " + std::to_string(i) + " is " + std::to_string(pr[i]) + " expected " + std::to_string(w[i])); break; }
        } else if (kind == "one") {
            double p0 = measureOneMPI(*World, e, q, n, mt), want = 0;
            for (size_t i = 0; i < w.size(); i++) if (!((i >> q) & 1)) want += w[i];
            if (!(std::abs(p0 - want) < 1e-9)) bad("MEAS", "probability that qubit " + std::to_string(q) + " is 0 is " + std::to_string(p0) + " expected " + std::to_string(want));
        } else if (kind == "look") {       // a measurement that does not collapse
            double p1 = 0;
            for (size_t i = 0; i < w.size(); i++) if ((i >> q) & 1) p1 += w[i];
            long n1 = 0, k = 0;
            bool same = true;
            for (; k < draws && same; k++) {
                char r = measureOneCollapsingMPI(*World, e, q, n, mt, false);
                same = sameEverywhere(r);
                n1 += r == '1';
            }
            if (!same) bad("MEAS", "processes disagree about the outcome");
            else if (!plausible(n1, k, p1)) bad("MEAS", "qubit " + std::to_string(q) + " read 1 in " + std::to_string(n1) + " of " + std::to_string(k) + " measurements, probability " + std::to_string(p1));
        } else {
            std::vector<long> cnt(w.size(), 0);
            std::string problem;
            bool same = true;
            long k = 0;
            // every process starts with the same generator, as a program does that seeds it with a constant; over several
            // samples the processes then use overlapping stretches of one sequence, so counts vary more than binomially
            std::mt19937_64 common(step * 7919 + tid);
            for (; k < draws && problem.empty() && same; k++) {
                std::mt19937_64 fresh(step * 7919 + tid * 104729 + k);
                std::string r = measureAllMPI(*World, e, false, tid % 2 ? common : fresh);
                same = sameEverywhere(r);
                if ((int)r.size() != n) { problem = "outcome string has length " + std::to_string(r.size()); break; }
                long i = std::stol(r, nullptr, 2);
                if (w[i] < 1e-13) problem = "outcome " + r + " has probability zero";
                cnt[i]++;
            }
            if (!same) bad("MEAS", "processes disagree about the outcome");
            else if (!problem.empty()) bad("MEAS", problem);
            else for (size_t i = 0; i < w.size(); i++)
                if (!plausible(cnt[i], k, w[i], tid % 2 ? 1e-28 : 5e-11)) { bad("MEAS", "outcome " + std::to_string(i) + " in " + std::to_string(cnt[i]) + " of " + std::to_string(k) + " samples, probability " + std::to_string(w[i])); break; }
        }
        if (!failed) { V[s] = e; distChk(e, v, "MEAS"); }
    } else if (op == "dgcv") {
        long n = geti(); std::vector<int> keep; for (long i = 0; i < n; i++) keep.push_back(geti());
        int force = geti();
        std::vector<Val> want; for (long i = 0; i < n; i++) want.push_back(getval());
        if (!force) set_gc_thr(4, 4);
        std::vector<vEdge> hs; for (int h : keep) hs.push_back(V.at(h));
        if (hs.size() == 1 && force) hs[0] = gc(hs[0], true); else hs = gc(hs, force != 0);
        V.clear();
        if (hs.size() != keep.size()) bad("GC", "collection returned " + std::to_string(hs.size()) + " states");
        else for (size_t i = 0; i < keep.size(); i++) { V[keep[i]] = hs[i]; if (!distChk(hs[i], want[i], "GC")) break; }
    } else if (op == "dchkv") {
        int d = geti(); Val v = getval();
        distChk(V.at(d), v, "KEEP");
    } else return false;
    (void)np;
    return true;
}
#endif

static void run(const std::string &op, std::mt19937_64 &mt) {
    if (op == "new") {
        int d = geti(), n = geti(), o = geti(); Val v = getval();
        vEdge e = again([&] { return o ? makeOneState(n) : makeZeroState(n); });
        V[d] = e; checkv(e, v);
    } else if (op == "loadv") {
        int d = geti(); Val v = getval();
        V[d] = loadv(v.a, 0, v.a.size());
        checkv(V[d], v);
    } else if (op == "loadm") {
        int d = geti(), n = geti(); Val v = getval();
        M[d] = loadm(v.a, size_t(1) << n, 0, 0, size_t(1) << n);
        MQ[d] = n;
        checkm(M[d], n, v);
    } else if (op == "vgate") {
        int d = geti(), s = geti(); Gate g = getgate(); int f = geti(); Val v = getval();
        vEdge src = V.at(s);
        int n = logn(v.a.size());
        vEdge e = again([&] { return mv_multiply(build(g, n, f), src); });
        V[d] = e; checkv(e, v);
    } else if (op == "mgate") {
        int d = geti(), n = geti(); Gate g = getgate(); int f = geti(); Val x = getval();
        mEdge e = again([&] { return build(g, n, f); });
        M[d] = e; MQ[d] = n; checkm(e, n, x);
    } else if (op == "mlarge") {
        int d = geti(), n = geti(); long t = geti();
        std::vector<Qubit> T; for (long i = 0; i < t; i++) T.push_back(geti());
        Val y = getval(), x = getval();
        size_t D = size_t(1) << t;
        mEdge e = again([&] {
            ComplexMatrix cm(D, std::vector<cd>(D));
            for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) cm[i][j] = y.a[i * D + j];
            bool std_order = true;
            for (long i = 0; i < t; i++) if (T[i] != i) std_order = false;
            return std_order && t == n ? makeLargeGate(n, cm) : makeLargeGate(n, cm, T);
        });
        M[d] = e; MQ[d] = n; checkm(e, n, x);
    } else if (op == "mmul" || op == "madd" || op == "mkron") {
        int d = geti(), l = geti(), r = geti(); Val x = getval();
        mEdge a = M.at(l), b = M.at(r);
        mEdge e = again([&] { return op == "mmul" ? mm_multiply(a, b) : op == "madd" ? mm_add(a, b) : mm_kronecker(a, b); });
        int n = logn(x.a.size()) / 2;
        M[d] = e; MQ[d] = n; checkm(e, n, x);
    } else if (op == "mapply") {
        int d = geti(), l = geti(), s = geti(); Val v = getval();
        mEdge a = M.at(l); vEdge b = V.at(s);
        vEdge e = again([&] { return mv_multiply(a, b); });
        V[d] = e; checkv(e, v);
    } else if (op == "vadd" || op == "vkron") {
        int d = geti(), l = geti(), r = geti(); Val v = getval();
        vEdge a = V.at(l), b = V.at(r);
        vEdge e = again([&] { return op == "vadd" ? vv_add(a, b) : vv_kronecker(a, b); });
        V[d] = e; checkv(e, v);
    } else if (op == "measure") {
        int d = geti(), s = geti(), q = geti(), b = geti();
        std::vector<double> w = getweights(); Val v = getval();
        vEdge src = V.at(s), out = src;
        long n1 = 0, n = 0, limit = std::max<long>(draws, (long)(40 / w[b]));
        bool have = false;
        for (; n < draws || (!have && n < limit); n++) {
            vEdge c = src;
            char r = measureOneCollapsing(c, q, mt);
            if (r != '0' && r != '1') { bad("MEAS", "outcome is neither 0 nor 1"); return; }
            if (w[r - '0'] < 1e-13) { bad("MEAS", std::string("outcome ") + r + " of qubit " + std::to_string(q) + " has probability zero"); return; }
            n1 += r == '1';
            if (r - '0' == b) { if (!have) out = c; have = true; }
            if (!(src.n == V.at(s).n)) { bad("MEAS", "measured copy changed the state"); return; }
        }
        if (!plausible(n1, n, w[1])) { bad("MEAS", "qubit " + std::to_string(q) + " read 1 in " + std::to_string(n1) + " of " + std::to_string(n) + " measurements, probability " + std::to_string(w[1])); return; }
        if (!have) { bad("MEAS", "possible outcome never returned"); return; }
        V[d] = out; checkv(out, v, "MEAS");
    } else if (op == "measureall") {
        int d = geti(), s = geti(); long want = geti();
        std::vector<double> w = getweights(); Val v = getval();
        vEdge src = V.at(s), out = src;
        int nq = logn(v.a.size());
        std::vector<long> cnt(w.size(), 0);
        bool have = false;
        long n = 0, limit = std::max<long>(draws, (long)(40 / w[want]));
        for (; n < draws || (!have && n < limit); n++) {
            vEdge c = src;
            std::string r = measureAll(c, true, mt);
            if ((int)r.size() != nq) { bad("MEAS", "outcome string has length " + std::to_string(r.size())); return; }
            long i = std::stol(r, nullptr, 2);
            if (w[i] < 1e-13) { bad("MEAS", "outcome " + r + " has probability zero"); return; }
            cnt[i]++;
            if (i == want && !have) { out = c; have = true; }
        }
        for (size_t i = 0; i < w.size(); i++)
            if (!plausible(cnt[i], n, w[i])) { bad("MEAS", "outcome " + std::to_string(i) + " in " + std::to_string(cnt[i]) + " of " + std::to_string(n) + " measurements, probability " + std::to_string(w[i])); return; }
        if (!have) { bad("MEAS", "possible outcome never returned"); return; }
        V[d] = out; checkv(out, v, "MEAS");
    } else if (op == "query") {
        int s = geti(), q = geti(); std::string kind = gets_();
        std::vector<double> w = getweights(); Val v = getval();
        vEdge e = V.at(s);
        if (kind == "probs") {
            auto pr = probabilities(e);
            if (pr.size() != w.size()) { bad("MEAS", "probabilities() has " + std::to_string(pr.size()) + " entries"); return; }
            for (size_t i = 0; i < w.size(); i++)
                if (!(std::abs(pr[i] - w[i]) < 1e-9)) { bad("MEAS", "probability of " + std::to_string(i) + " is " + std::to_string(pr[i]) + " expected " + std::to_string(w[i])); return; }
        } else if (kind == "one") {
            double p0 = measureOne(e, q, mt), want = 0;
            for (size_t i = 0; i < w.size(); i++) if (!((i >> q) & 1)) want += w[i];
            if (!(std::abs(p0 - want) < 1e-9)) { bad("MEAS", "probability that qubit " + std::to_string(q) + " is 0 is " + std::to_string(p0) + " expected " + std::to_string(want)); return; }
        } else {
            std::vector<long> cnt(w.size(), 0);
            int nq = logn(w.size());
            for (long n = 0; n < draws; n++) {
                std::string r = measureAll(e, false, mt);
                if ((int)r.size() != nq) { bad("MEAS", "outcome string has length " + std::to_string(r.size())); return; }
                long i = std::stol(r, nullptr, 2);
                if (w[i] < 1e-13) { bad("MEAS", "outcome " + r + " has probability zero"); return; }
                cnt[i]++;
            }
            for (size_t i = 0; i < w.size(); i++)
                if (!plausible(cnt[i], draws, w[i])) { bad("MEAS", "outcome " + std::to_string(i) + " in " + std::to_string(cnt[i]) + " of " + std::to_string(draws) + " samples, probability " + std::to_string(w[i])); return; }
        }
        if (e.n != V.at(s).n) { bad("MEAS", "query changed the state"); return; }
        checkv(V.at(s), v, "MEAS");
    } else if (op == "gcv") {
        long n = geti(); std::vector<int> keep; for (long i = 0; i < n; i++) keep.push_back(geti());
        int force = geti();
        std::vector<Val> want; for (long i = 0; i < n; i++) want.push_back(getval());
        if (!force) set_gc_thr(4, 4);
        std::vector<vEdge> hs; for (int h : keep) hs.push_back(V.at(h));
        if (hs.size() == 1 && force) hs[0] = gc(hs[0], true); else hs = gc(hs, force != 0);
        if (hs.size() != keep.size()) { bad("GC", "collection returned " + std::to_string(hs.size()) + " states"); return; }
        V.clear();
        for (size_t i = 0; i < keep.size(); i++) { V[keep[i]] = hs[i]; if (!checkv(hs[i], want[i], "GC")) return; }
    } else if (op == "gcm") {
        long n = geti(); std::vector<int> keep; for (long i = 0; i < n; i++) keep.push_back(geti());
        int force = geti();
        std::vector<Val> want; for (long i = 0; i < n; i++) want.push_back(getval());
        if (!force) set_gc_thr(4, 4);
        std::vector<mEdge> hs; for (int h : keep) hs.push_back(M.at(h));
        if (hs.size() == 1 && force) hs[0] = gc_mat(hs[0], true); else hs = gc_mat(hs, force != 0);
        if (hs.size() != keep.size()) { bad("GC", "collection returned " + std::to_string(hs.size()) + " operators"); return; }
        M.clear();
        for (size_t i = 0; i < keep.size(); i++) { M[keep[i]] = hs[i]; if (!checkm(hs[i], logn(want[i].a.size()) / 2, want[i], "GC")) return; }
    } else if (op == "store") {
        int d = geti(), s = geti(); std::string kind = gets_(); Val v = getval();
        vEdge e = V.at(s);
#ifdef isMPI
        vEdge b;
        if (kind == "file") {
            std::string name = "state." + std::to_string(getpid()) + ".bin";
            save_binary(e, name);
            b = load_binary(name);
            unlink(name.c_str());
        } else {                            // small messages to oneself are buffered
            send_dd(*World, e, 0, kind == "send");
            b = receive_dd(*World, 0, kind == "send");
        }
        V[d] = b;
        if (!checkv(b, v, "STORE")) return;
        if (b.n != e.n) bad("STORE", "the reloaded state does not share the node of the equal state that is present");
#else
        V[d] = e;
#endif
#ifdef isMPI
    } else if (op == "save") {
        int s = geti(); std::string name = gets_();
        save_binary(V.at(s), name);
    } else if (op == "load") {
        int d = geti(); std::string name = gets_(); Val v = getval();
        vEdge b = load_binary(name), b2 = load_binary(name);
        V[d] = b;
        if (!checkv(b, v, "STORE")) return;
        if (b.n != b2.n) bad("STORE", "a state loaded twice does not share its node");
#endif
    } else if (op == "chkv") {           // a handle still denotes what it did
        int d = geti(); Val v = getval();
        checkv(V.at(d), v, "KEEP");
    } else if (op == "chkm") {
        int d = geti(), n = geti(); Val v = getval();
        checkm(M.at(d), n, v, "KEEP");
    } else if (op == "share") {
        // pairs of handles: same node iff equal up to a scalar (strict), different node if they differ
        int strict = geti();
        for (int which = 0; which < 2; which++) {
            long n = geti();
            for (long i = 0; i < n; i++) {
                int a = geti(), b = geti(), par = geti(), zero = geti();
                if (failed) continue;
                bool same = which == 0 ? V.at(a).n == V.at(b).n : M.at(a).n == M.at(b).n;
                const char *what = which == 0 ? "state" : "operator";
                if (zero) continue;
                if (par && !same && strict) bad("NODE", std::string(what) + "s " + std::to_string(a) + " and " + std::to_string(b) + " are equal up to a scalar but have different nodes");
                if (!par && same) bad("NODE", std::string(what) + "s " + std::to_string(a) + " and " + std::to_string(b) + " differ but have the same node");
            }
        }
    } else { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(3); }
}

#ifdef isMT
#include "task.h"
// Random delays at the schedule points of the engine: they widen every window
// between reading and writing shared structures.
static unsigned jitterMax = 0, jitterDen = 2;
static std::atomic<unsigned> jitterSeed{1};
static std::atomic<long> resumed{0}, away{0};
static const std::thread::id mainThread = std::this_thread::get_id();
static void jitter(int kind, int, int, std::size_t, const void *, const void *) {
    static thread_local unsigned x = 0;
    if (kind == QDD_TASK_RESUMED) {
        resumed++;
        if (std::this_thread::get_id() != mainThread) away++;
    }
    if (x == 0) x = jitterSeed.fetch_add(0x9e3779b9u) | 1u;
    x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    unsigned den = (kind == QDD_CACHE_FIND || kind == QDD_CACHE_SET || kind == QDD_LOOKUP_MISS) ? jitterDen : jitterDen * 4;
    if (x % den) return;
    unsigned us = (x >> 8) % (jitterMax + 1);
    if (us == 0) std::this_thread::yield();
    else std::this_thread::sleep_for(std::chrono::microseconds(us));
}
#endif

int main(int argc, char **argv) {
#ifdef isMPI
    bmpi::environment env(argc, argv);
    bmpi::communicator world;
    World = &world;
#endif
    in.open(argv[1]);
    std::string repname = argv[2];
    long rankSeed = 0;
#ifdef isMPI
    if (world.size() > 1) { repname += "." + std::to_string(world.rank()); rankSeed = world.rank(); }
#endif
    rep = fopen(repname.c_str(), "w");
    if (!in || !rep) { fprintf(stderr, "cannot open files\n"); return 3; }
    std::mt19937_64 mt(argc > 3 ? strtoull(argv[3], nullptr, 10) + 1000003 * rankSeed : 1);
    int threads = 1, jit = 0;
    for (int i = 4; i < argc; i++) {
        std::string f = argv[i];
        if (f == "repeat") repeatOps = true;
        else if (f == "nodes") checkNodes = true;
        else if (f == "eigen") eigen = true;
        else if (f.rfind("draws=", 0) == 0) draws = atoi(f.c_str() + 6);
        else if (f.rfind("threads=", 0) == 0) threads = atoi(f.c_str() + 8);
        else if (f.rfind("jitter=", 0) == 0) jit = atoi(f.c_str() + 7);
    }
    (void)threads; (void)jit;
#ifdef isMT
    std::unique_ptr<Scheduler> sched;
    if (threads > 1) sched.reset(new Scheduler(threads - 1));
    if (jit) { jitterMax = jit; jitterSeed = (unsigned)mt(); qdd_verif_point = jitter; }
#endif
    std::ofstream null("/dev/null");
    std::cout.rdbuf(null.rdbuf());          // the collector prints its progress
    std::string tok;
    while (in >> tok) {
        if (tok == "T") {
            tid = geti(); step = 0; failed = false; V.clear(); M.clear(); MQ.clear();
            fprintf(rep, "begin %ld\n", tid); fflush(rep);
        } else if (tok == "E") {
            if (!failed && checkNodes) { curop = "final"; checkStructure(); }
            fprintf(rep, "end %ld %d\n", tid, step); fflush(rep);
        } else {
            step++;
            if (failed) { std::string line; std::getline(in, line); continue; }
            curop = tok;
            fprintf(rep, "at %d %s\n", step, tok.c_str()); fflush(rep);
            bool dist = false;
            try {
#ifdef isMPI
                if (tok[0] == 'd') { if (!distRun(tok, mt)) exit(3); dist = true; }
#endif
                if (!dist) run(tok, mt);
            } catch (const std::exception &ex) {
                bad("EXC", std::string("exception: ") + ex.what());
#ifdef isMPI
                if (world.size() > 1) MPI_Abort(MPI_COMM_WORLD, 9);     // the others may be waiting
#endif
            }
#ifdef isMPI
            if (world.size() > 1) distSync();
#endif
            if (failed) { std::string line; std::getline(in, line); continue; }
            if (checkNodes && step % 5 == 0) checkStructure();
        }
    }
#ifdef isMT
    sched.reset();
    fprintf(rep, "resumed %ld %ld\n", resumed.load(), away.load());
#endif
    fprintf(rep, "done\n");
    fclose(rep);
    return 0;
}
