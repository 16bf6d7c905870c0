"""Requests whose executions overlap in time (spec/Overlap.tla): the jobs of several sessions, each in a thread of its own, take turns on the
engine as a schedule of the specification wishes wherever the package lets them."""
import contextlib, io, os, sys, threading, time
import py_driver as D
import py_modes as M


class Turns:
    """Stands for the engine's module: every call waits for its thread's turn, for a while."""

    def __init__(self, mod, turns, patience):
        self.mod, self.turns, self.patience = mod, list(turns), patience
        self.at, self.of, self.cond = 0, {}, threading.Condition()
        self.followed = self.missed = 0

    def wait(self):
        me = self.of.get(threading.get_ident())
        with self.cond:
            if me is None or self.at >= len(self.turns):
                return
            end = time.monotonic() + self.patience
            while self.at < len(self.turns) and self.turns[self.at] != me:
                left = end - time.monotonic()
                if left <= 0:
                    self.missed += 1
                    break
                seen = self.at
                self.cond.wait(left)
                if self.at != seen:
                    end = time.monotonic() + self.patience
            else:
                self.followed += 1
            self.at += 1
            self.cond.notify_all()

    def leave(self):
        """The thread makes no more calls: its turns are over."""
        with self.cond:
            me = self.of.pop(threading.get_ident(), None)
            self.turns = self.turns[:self.at] + [t for t in self.turns[self.at:] if t != me]
            self.cond.notify_all()


class Proxy:
    def __init__(self, turns):
        object.__setattr__(self, "_turns", turns)

    def __getattr__(self, name):
        v = getattr(self._turns.mod, name)
        if not callable(v) or isinstance(v, type):
            return v

        def call(*a, **k):
            self._turns.wait()
            return v(*a, **k)
        return call


class Serial:
    """A primitive whose requests are submitted one at a time (their execution is not)."""

    def __init__(self, prim, lock, turns, me):
        self.prim, self.lock, self.turns, self.me = prim, lock, turns, me

    def run(self, *a, **k):
        with self.lock:
            run, turns, of = self.prim, self.turns, self.turns.of
            call = getattr(run, "_call", None)
            if call is None:            # the schedule then orders the others only
                return run.run(*a, **k)

            def mine(*x, **y):          # runs in the job's thread
                of[threading.get_ident()] = self.me
                try:
                    return call(*x, **y)
                finally:
                    turns.leave()
            run._call = mine
            try:
                return run.run(*a, **k)
            finally:
                del run._call


def units(s, case):
    """Jobs that belong together stay in order."""
    chain, out = [], []
    for j, job in enumerate(case["jobs"]):
        if job["kind"] in ("merge", "use", "drop", "seeded", "repeat"):
            chain.append((j, job))
        else:
            out.append([(j, job)])
    return out + [chain] * bool(chain)


def m_overlap(case, bad):
    import qdd.qdd_backend as QB
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    pyQDD = QB.pyQDD
    os.environ["QISKIT_IN_PARALLEL"] = "TRUE"       # the transpiler must not fork a process with threads
    turns = Turns(pyQDD, case["turns"], case.get("patience", 0.004))
    lock, work, prims = threading.Lock(), [], {}
    with D.quiet():
        prims["s"], prims["e"] = Sampler(**case.get("sampler", {})), Estimator(**case.get("estimator", {}))
    for c in case["sessions"]:
        s = M.Session(dict(c, inplace=False), bad)
        for u in units(s, c):
            work.append((s, c, u))
    # Qiskit's transpiler makes no promises to threads: what has to be transpiled is transpiled before
    for me, (s, c, unit) in enumerate(work):
        for kind, slot in (("sampler", "s"), ("estimator", "e")):
            if unit and unit[0][1]["kind"] == kind and not case.get(kind, {}).get("skip_transpilation"):
                s.sampler, s.estimators = prims["s"], {"e": prims["e"]}
                try:
                    getattr(s, "do_" + kind)(*unit[0])
                except Exception as e:
                    D.explain(e, case, bad, kind + ": ")
                    if not bad:
                        unit.clear()
    work = [w for w in work if w[2]]
    old, quiets = sys.getswitchinterval(), (D.quiet, M.quiet)
    shared = io.StringIO()

    @contextlib.contextmanager
    def inner():
        yield shared
    start = threading.Barrier(len(work))

    def one(me, s, c, unit):
        start.wait()
        try:
            mine = M.Session.__new__(M.Session)
            mine.__dict__.update(s.__dict__)
            mine.shots = s.shots + me       # the options of a request are its own as well
            mine.sampler, mine.estimators = Serial(prims["s"], lock, turns, me), {"e": Serial(prims["e"], lock, turns, me)}
            if unit[0][1]["kind"] not in ("sampler", "estimator"):
                turns.of[threading.get_ident()] = me
            for j, job in unit:
                getattr(mine, "do_" + job["kind"])(j, job)
        except Exception as e:
            D.explain(e, case, bad, unit[0][1]["kind"] + ": ")
        finally:
            turns.leave()
    ts = [threading.Thread(target=one, args=(i + 1,) + w, daemon=True) for i, w in enumerate(work)]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(shared):
        D.quiet = M.quiet = inner
        QB.pyQDD = Proxy(turns)
        pyQDD.set_gc_thr(*case.get("gc", [1 << 16, 1 << 16]))
        sys.setswitchinterval(case.get("switch", 5e-5))
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
            QB.pyQDD = pyQDD
            D.quiet, M.quiet = quiets
            pyQDD.set_gc_thr(1 << 16, 1 << 16)
    if any(t.is_alive() for t in ts):
        bad.append(["HANG", "%d of %d overlapping requests were not answered within 120 s" % (sum(t.is_alive() for t in ts), len(ts))])
        print("", flush=True)
    if os.environ.get("QDD_HARNESS_STAT"):
        print("turns followed", turns.followed, "missed", turns.missed, file=sys.stderr)


MODES = {"overlap": m_overlap}
