"""Runs cases through harness/py_driver.py on a Python package built from the repository."""
import concurrent.futures as cf
import json, os, subprocess
import vf


def run_part(pkg, cases, workdir, name, timeout, launcher=(), env=None):
    p = os.path.join(workdir, name + ".jsonl")
    rep = os.path.join(workdir, name + ".rep")
    with open(p, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    e = dict(os.environ, PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             RAYON_NUM_THREADS="1", QISKIT_PARALLEL="FALSE", **(env or {}))
    try:
        r = subprocess.run(list(launcher) + [vf.PYTHON, os.path.join(vf.HARNESS, "py_driver.py"), p, rep], cwd=workdir, env=e,
                           timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    bad, cur, done, n = [], None, False, 0
    if os.path.exists(rep):
        for l in open(rep):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "start" in d:
                cur = d["start"]
            elif "i" in d:
                n += 1
                cur = None
                for tag, text in d["bad"]:
                    bad.append((d["i"], tag, text))
            elif "done" in d:
                done = True
    if not done:
        if cur is None and rc != "timeout" and rc >= 0:
            raise vf.Broken("python driver stopped (rc %s): %s" % (rc, out[-2000:]))
        bad.append((cur if cur is not None else 0, "HANG" if rc == "timeout" else "CRASH", "the process %s (rc %s) %s" % (
            "did not return" if rc == "timeout" else "died", rc, out[-300:])))
    return bad, n, cur if not done else None


def mpi_part(pkg, np, cases, workdir, name, timeout):
    """Like run_part on np processes; the cases carry opts with use_mpi."""
    import mpi_checks
    p, rep = os.path.join(workdir, name + ".jsonl"), os.path.join(workdir, name + ".rep")
    with open(p, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    e = dict(mpi_checks.mpi_env(), PYTHONPATH=pkg + ":" + os.path.join(vf.HARNESS, "mpishim"), PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", RAYON_NUM_THREADS="1", QISKIT_PARALLEL="FALSE")
    rc, out = mpi_checks.run_group(mpi_checks.MPIRUN + ["-np", str(np), vf.PYTHON, os.path.join(vf.HARNESS, "py_driver.py"), p, rep],
                                   workdir, e, timeout)
    bad, seen, undone, n = [], set(), [], 0
    for r in range(np):
        f, cur, done = "%s.%d" % (rep, r), None, False
        for l in (open(f) if os.path.exists(f) else ()):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "start" in d:
                cur = d["start"]
            elif "i" in d:
                n += r == 0
                for tag, text in d["bad"]:
                    if (d["i"], tag) not in seen:
                        seen.add((d["i"], tag))
                        bad.append((d["i"], tag, "process %d of %d: %s" % (r, np, text)))
                        if tag in ("EXC", "REJECT"):
                            break
                else:
                    cur = None
            elif "done" in d:
                done = True
        if not done:
            undone.append(cur)
    at = None
    if undone:
        if all(u is None for u in undone) and rc != "timeout" and not bad and n == 0:
            raise vf.Broken("mpirun failed (rc %s): %s" % (rc, out[-1500:]))
        at = min([u for u in undone if u is not None], default=0)
        if not any(b[0] == at and b[1] in ("EXC", "REJECT") for b in bad):
            bad.append((at, "HANG" if rc == "timeout" else "CRASH", "%d processes %s (rc %s) %s" % (
                np, "did not return" if rc == "timeout" else "died", rc, out[:300])))
    return bad, n, at


def run_cases(c, pkg, cases, name, parts=None, timeout=600, env=None, np=0):
    """Returns [(case index, tag, text)] and the number of cases completed."""
    parts = min(parts or max(1, vf.JOBS // max(1, np)), max(1, len(cases)))
    timeout = timeout if vf.THOROUGH else min(timeout, 200)
    chunks = [list(range(i, len(cases), parts)) for i in range(parts)]

    def one(i):
        idx = chunks[i]
        bad, n, rnd = [], 0, 0
        while idx and rnd < 4:
            part, tag = [cases[j] for j in idx], "%s-%d-%d" % (name, i, rnd)
            b, k, stopped = mpi_part(pkg, np, part, c.dir, tag, timeout) if np else run_part(pkg, part, c.dir, tag, timeout, env=env)
            bad += [(idx[j], t, x) for j, t, x in b]
            n += k
            idx = idx[stopped + 1:] if stopped is not None else []
            rnd += 1
            if any(t == "HANG" for _, t, _ in b):
                break
        return bad, n

    with cf.ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(one, range(parts)))
    return sorted(b for r in res for b in r[0]), sum(r[1] for r in res)
