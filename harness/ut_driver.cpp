// Replays look-up schedules of spec/UniqueTable.tla on the real CHashTable with real threads, and records logs of
// free-running concurrent look-ups for spec/LookupTrace.tla.
//
//   ut_driver INPUT REPORT SEED
// Input lines:
//   S id table nb wait npre keys.. nt len prog.. n (thread event)..     follow a schedule (thread 1..nt, event as EV)
//   F id table nb nt len nkeys jitter log                               run free; log=1 records the calls and returns
// Report lines:  at id | bad id TAG text | end id followed | log JSON | done
// A schedule is a wish: a thread that does not come to its next hook in time (it waits for a lock, or the code has no
// such hook) is left running, and only the outcome is judged.
#include "table.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

using Clock = std::chrono::steady_clock;
enum EV { CALL, TRY, LOCKED, HIT, MISS, INSERTED, RETURN };
static FILE *rep;
static const int MAXT = 16;
static thread_local int tid = 0; // 0: the main thread
struct Slot {
    std::atomic<int> parked{0}; // waits for a grant
    std::atomic<int> done{0};
    char pad[64];
};
static Slot slot[MAXT + 1];
static std::atomic<bool> follow{false};
static std::atomic<unsigned> jitterMask{0};
static thread_local uint64_t rs = 88172645463325252ull;
static uint64_t rnd() {
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs;
}
static void pause_(int &k) {
    if (++k > 200) { std::this_thread::yield(); } else __builtin_ia32_pause();
}
static void park() {
    slot[tid].parked.store(1, std::memory_order_seq_cst);
    int k = 0;
    while (slot[tid].parked.load() && follow.load()) pause_(k);
    slot[tid].parked.store(0);
}
static void point(int kind, int, int, std::size_t, const void *, const void *) {
    if (tid == 0) return;
    if (follow.load()) { if (kind <= QDD_LOOKUP_INSERTED) park(); return; }
    unsigned m = jitterMask.load(std::memory_order_relaxed);
    if (m) {
        unsigned r = rnd() & m;
        if (r == 1) std::this_thread::yield();
        else if (r < 40) { volatile unsigned s = 0; for (unsigned i = 0; i < r * 20; i++) s += i; }
    }
}

// ---- node values: neighbours differ in one field only
static vNode vDummy[2];
static mNode mDummy[2];
template <class T> struct Val;
template <> struct Val<vNode> {
    static vNode *term(int i) { return i == 0 ? vNode::terminal : &vDummy[i - 1]; }
    static constexpr int C = 2;
    using E = vEdge;
};
template <> struct Val<mNode> {
    static mNode *term(int i) { return i == 0 ? mNode::terminal : &mDummy[i - 1]; }
    static constexpr int C = 4;
    using E = mEdge;
};
template <class T> static void fill(T *p, int key, int nb) {
    int k = key - 1, c = Val<T>::C;
    p->v = key % nb;
    int field = (k / 1) % (2 * c), step = k / (2 * c); // which field deviates, and by how much
    for (int i = 0; i < c; i++) {
        double re = 0.25, im = 0;
        int ptr = 0;
        if (field / 2 == i) {
            if (field % 2 == 0) re += 0.03125 * (step + 1); else if (step % 2 == 0) im = 0.03125 * (step + 1); else { ptr = 1 + (step / 2) % 2; im = -0.03125 * (step / 4); }
        }
        p->children[i].w = std_complex(re, im);
        p->children[i].n = Val<T>::term(ptr);
    }
}
template <class T> static bool holds(const T *p, int key, int nb) {
    T q;
    fill(&q, key, nb);
    if (p->v != q.v) return false;
    for (int i = 0; i < Val<T>::C; i++)
        if (!(p->children[i].w.r == q.children[i].w.r && p->children[i].w.i == q.children[i].w.i && p->children[i].n == q.children[i].n)) return false;
    return true;
}

struct Event { bool ret; int t, key; const void *node; };
static std::vector<Event> evlog;
static std::atomic<int> evn{0};
static void ev(bool ret, int t, int key, const void *node) {
    int i = evn.fetch_add(1);
    if (i < (int)evlog.size()) evlog[i] = {ret, t, key, node};
}

static void bad(const std::string &id, const char *tag, const std::string &text) {
    fprintf(rep, "bad %s %s %s\n", id.c_str(), tag, text.c_str());
    fflush(rep);
}

template <class T> struct Round {
    CHashTable<T> *tbl;
    int nb;
    std::vector<std::vector<int>> prog;                 // per thread 1..nt
    std::vector<std::vector<std::pair<int, T *>>> res;  // per thread
    bool logging = false;
    std::atomic<int> corrupt{0};

    T *one(int key, int t) {
        T *p = tbl->getNode();
        if (tid != 0 && follow.load() == false && (rnd() & 3) == 0) { volatile unsigned s = 0; for (unsigned i = 0; i < 50; i++) s += i; }
        fill(p, key, nb);
        if (logging) ev(false, t, key, p);
        T *q = tbl->lookup(p);
        if (logging) ev(true, t, key, q);
        if (!holds(q, key, nb)) corrupt++;
        return q;
    }
    void worker(int t) {
        for (int key : prog[t]) {
            if (follow.load()) park();
            res[t].push_back({key, one(key, t)});
        }
        slot[t].done.store(1);
    }
    bool running(int nt, int secs) {
        auto end = Clock::now() + std::chrono::seconds(secs);
        int k = 0;
        for (int t = 1; t <= nt; t++)
            while (!slot[t].done.load()) {
                pause_(k);
                if ((k & 0xfff) == 0 && Clock::now() > end) return true;
            }
        return false;
    }
    // sequential judgement of the outcome
    void judge(const std::string &id, const std::vector<int> &pre, const std::vector<T *> &prenode) {
        std::map<int, T *> of;
        std::map<T *, int> who;
        auto see = [&](int key, T *p, const char *what) {
            if (of.count(key) && of[key] != p) bad(id, "AGREE", std::string("look-ups of equal nodes returned different nodes (") + what + " key " + std::to_string(key) + ")");
            of.emplace(key, p);
            if (who.count(p) && who[p] != key) bad(id, "AGREE", std::string("look-ups of different nodes returned one node (") + what + " keys " + std::to_string(key) + " and " + std::to_string(who[p]) + ")");
            who.emplace(p, key);
            if (!holds(p, key, nb)) bad(id, "KEPT", std::string("a returned node does not have the value asked for (") + what + " key " + std::to_string(key) + ")");
        };
        for (size_t i = 0; i < pre.size(); i++) see(pre[i], prenode[i], "stored before");
        for (auto &r : res) for (auto &x : r) see(x.first, x.second, "concurrent");
        if (corrupt.load()) bad(id, "KEPT", "a returned node did not have the value asked for");
        std::set<T *> fresh;
        for (auto &x : std::map<int, T *>(of)) {
            T *p = tbl->getNode();
            if (who.count(p)) bad(id, "KEPT", "a stored node was handed out as a new one");
            fill(p, x.first, nb);
            T *q = tbl->lookup(p);
            if (q != x.second) bad(id, "KEPT", "a later look-up of key " + std::to_string(x.first) + " does not find the node returned before");
            else if (!holds(q, x.first, nb)) bad(id, "KEPT", "a stored node changed its value");
        }
        // the pools of all threads hand out unstored, distinct nodes
        for (int i = 0; i < 6; i++) {
            T *p = tbl->getNode();
            if (who.count(p) || !fresh.insert(p).second) bad(id, "KEPT", "a node was handed out twice");
        }
    }
};

template <class T> static int schedule(std::istringstream &in, const std::string &id) {
    int nb, wait, np, nt, len, n;
    Round<T> r;
    in >> nb >> wait >> np;
    std::vector<int> pre(np);
    for (auto &k : pre) in >> k;
    in >> nt >> len;
    r.nb = nb;
    r.prog.resize(nt + 1);
    r.res.resize(nt + 1);
    for (int t = 1; t <= nt; t++) { r.prog[t].resize(len); for (auto &k : r.prog[t]) in >> k; }
    in >> n;
    std::vector<std::pair<int, int>> ev(n);
    for (auto &e : ev) in >> e.first >> e.second;
    if (!in) { fprintf(stderr, "bad schedule %s\n", id.c_str()); exit(3); }
    r.tbl = new CHashTable<T>(nb);
    std::vector<T *> prenode;
    for (int k : pre) prenode.push_back(r.one(k, 0));
    follow.store(true);
    for (int t = 1; t <= nt; t++) { slot[t].parked.store(0); slot[t].done.store(0); }
    std::vector<std::thread> th;
    for (int t = 1; t <= nt; t++) th.emplace_back([&r, t] { tid = t; r.worker(t); });
    auto arrive = [&](int t, int us) {
        auto end = Clock::now() + std::chrono::microseconds(us);
        int k = 0;
        while (!slot[t].parked.load() && !slot[t].done.load()) {
            pause_(k);
            if ((k & 31) == 0 && Clock::now() > end) return false;
        }
        return true;
    };
    int followed = 0;
    for (int t = 1; t <= nt; t++) arrive(t, 1000000);
    std::vector<bool> asked(nt + 1, false);
    for (auto &e : ev) {
        int t = e.first;
        int us = wait ? 50000 : 150;
        if (slot[t].done.load()) continue;
        if (!asked[t]) {
            if (!arrive(t, us)) continue;
            slot[t].parked.store(0);
        }
        if (e.second == TRY) { asked[t] = true; arrive(t, 150); continue; } // it is on its way, and has to wait
        asked[t] = false;
        if (arrive(t, us)) followed++;
    }
    follow.store(false);
    if (r.running(nt, 20)) { bad(id, "HANG", "a look-up did not return"); fprintf(rep, "done\n"); fflush(rep); _exit(0); }
    for (auto &x : th) x.join();
    r.judge(id, pre, prenode);
    delete r.tbl;
    fprintf(rep, "end %s %d %d\n", id.c_str(), followed, n);
    return 0;
}

template <class T> static void freerun(std::istringstream &in, const std::string &id) {
    int nb, nt, len, nk, jit, lg;
    in >> nb >> nt >> len >> nk >> jit >> lg;
    Round<T> r;
    r.nb = nb;
    r.logging = lg;
    r.prog.resize(nt + 1);
    r.res.resize(nt + 1);
    for (int t = 1; t <= nt; t++) for (int i = 0; i < len; i++) r.prog[t].push_back(1 + rnd() % nk);
    r.tbl = new CHashTable<T>(nb);
    evn = 0;
    evlog.assign(lg ? 2 * nt * len : 0, {});
    jitterMask = jit;
    std::atomic<int> ready{0};
    for (int t = 1; t <= nt; t++) slot[t].done.store(0);
    std::vector<std::thread> th;
    uint64_t base = rnd();
    for (int t = 1; t <= nt; t++) th.emplace_back([&, t] {
        tid = t;
        rs = base ^ (0x9e3779b97f4a7c15ull * (t + 1));
        ready++;
        int k = 0;
        while (ready.load() < nt) pause_(k);
        r.worker(t);
    });
    if (r.running(nt, 60)) { bad(id, "HANG", "a look-up did not return"); fprintf(rep, "done\n"); fflush(rep); _exit(0); }
    for (auto &x : th) x.join();
    jitterMask = 0;
    r.judge(id, {}, {});
    if (lg) {
        std::map<const void *, int> num;
        auto nr = [&](const void *p) { return num.emplace(p, (int)num.size() + 1).first->second; };
        fprintf(rep, "log {\"id\":\"%s\",\"ev\":[", id.c_str());
        for (int i = 0; i < evn.load(); i++) {
            auto &e = evlog[i];
            fprintf(rep, "%s{\"k\":\"%s\",\"t\":%d,\"key\":%d,\"node\":%d}", i ? "," : "", e.ret ? "ret" : "call", e.t, e.key, nr(e.node));
        }
        fprintf(rep, "]}\n");
    }
    delete r.tbl;
    fprintf(rep, "end %s %d %d\n", id.c_str(), nt * len, nt * len);
}

int main(int argc, char **argv) {
    std::ifstream f(argv[1]);
    rep = fopen(argv[2], "w");
    rs ^= std::stoull(argv[3]) * 0x9e3779b97f4a7c15ull;
    qdd_verif_point = point;
    std::string l;
    while (std::getline(f, l)) {
        std::istringstream in(l);
        std::string k, id;
        int tab;
        in >> k >> id >> tab;
        fprintf(rep, "at %s\n", id.c_str());
        fflush(rep);
        if (k == "S") { if (tab) schedule<vNode>(in, id); else schedule<mNode>(in, id); }
        else if (k == "F") { if (tab) freerun<vNode>(in, id); else freerun<mNode>(in, id); }
    }
    fprintf(rep, "done\n");
    fclose(rep);
    _exit(0);
}
