"""Replay of DDEngine behaviours into the engine."""
import concurrent.futures as cf
import os, subprocess, tempfile
import ddscript, vf

GENERAL_OPS = ["new", "vgate", "vgate", "vgate", "mgate", "mgate", "mlarge", "mmul", "madd", "mkron", "mapply",
               "mapply", "vadd", "vkron", "measure", "measureall", "query", "gcv", "gcm"]


def engines(**kinds):
    """kinds: name -> dict for vf.variant(); builds the driver for each."""
    return vf.build_many([(n, ["@src/dd.cpp"] + (["@src/task.cpp"] if k.get("mt") else []) + ["dd_driver.cpp"],
                           vf.variant(**k)) for n, k in kinds.items()])


def behaviours(c, tag, num, depth, maxn, ops, mode="general", hv=3, hm=3, extra=(), **kw):
    consts = {"MaxN": maxn, "HV": hv, "HM": hm, "Depth": depth, "Mode": mode, "OpSet": ops, "Pick": vf.Raw("PickOne")}
    tr, states = vf.simulate("DDEngine", consts, c.dir, tag, num, depth + 1,
                             ["Emitted", "UnitaryOK", "BornOK"] + list(extra), **kw)
    if not tr:
        raise vf.Broken("the specification generated no behaviours for " + tag)
    return tr, states


def _noaslr(cmd):
    return ["setarch", "-R"] + cmd if os.path.exists("/usr/bin/setarch") else cmd


def run_script(exe, script, workdir, name, seed, flags, timeout=600, launcher=()):
    p = os.path.join(workdir, name + ".txt")
    rep = os.path.join(workdir, name + ".rep")
    with open(p, "w") as f:
        f.write(script)
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    with tempfile.TemporaryDirectory(prefix="qm", dir="/tmp", ignore_cleanup_errors=True) as d:
        env["OMPI_MCA_orte_tmpdir_base"] = d
        try:
            r = subprocess.run(list(launcher) + _noaslr([exe, p, rep, str(seed)] + list(flags)), cwd=workdir, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, errors="replace")
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = "timeout", ""
    rc = rc - 256 if rc != "timeout" and 128 <= rc < 256 else rc
    res = {"bad": [], "ended": 0, "steps": 0, "rc": rc, "out": out[-2000:]}
    cur = step = op = None
    done = False
    if os.path.exists(rep):
        for l in open(rep):
            w = l.rstrip("\n").split(" ", 5)
            if w[0] == "begin":
                cur, step, op = int(w[1]), 0, None
            elif w[0] == "at":
                step, op = int(w[1]), w[2]
            elif w[0] == "end":
                res["ended"] += 1
                res["steps"] += int(w[2])
                cur = None
            elif w[0] == "bad":
                res["bad"].append((int(w[1]), int(w[2]), w[3], w[4], w[5] if len(w) > 5 else ""))
            elif w[0] == "done":
                done = True
    if not done:
        if cur is None and rc != "timeout" and rc >= 0:
            raise vf.Broken("driver stopped outside a behaviour (rc %s): %s" % (rc, out[-1500:]))
        if rc == 3:
            raise vf.Broken("driver rejected its script: " + out[-1500:])
        cur = -1 if cur is None else cur      # it died while starting or finishing
        res["bad"].append((cur, step, op, "HANG" if rc == "timeout" else "CRASH", "the engine %s (rc %s)" % (
            "did not return" if rc == "timeout" else "crashed", rc)))
        res["crashed"] = cur
    return res


def replay(c, exe, traces, name, flags=(), strict=False, parts=None, seed=None, timeout=600):
    """Replay all behaviours; returns list of (trace index, step, op, tag, text) and step count."""
    parts = parts or vf.JOBS
    seed = vf.SEED if seed is None else seed
    chunks = [list(range(i, len(traces), parts)) for i in range(min(parts, len(traces)))]
    timeout = timeout if vf.THOROUGH else min(timeout, 200)

    def one(i):
        idx = chunks[i]
        bad, steps, ended = [], 0, 0
        rnd = 0
        while idx and rnd < 4:
            script = "".join(ddscript.behaviour(t, traces[t], strict) for t in idx)
            r = run_script(exe, script, c.dir, "%s-%d-%d" % (name, i, rnd), seed * 131 + i + rnd * 1000, flags, timeout)
            bad += r["bad"]
            steps += r["steps"]
            ended += r["ended"]
            if "crashed" in r:       # continue behind the behaviour that crashed
                if r["crashed"] not in idx or r["rc"] == "timeout":
                    bad = [(idx[0],) + b[1:] if b[0] == -1 else b for b in bad]
                    break
                idx = idx[idx.index(r["crashed"]) + 1:]
                rnd += 1
            else:
                idx = []
        return bad, steps, ended

    with cf.ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(one, range(len(chunks))))
    bad = sorted(b for r in res for b in r[0])
    return bad, sum(r[1] for r in res), sum(r[2] for r in res)


def describe(tr, b):
    t, step, op, tag, text = b
    return "behaviour %d step %d (%s): %s" % (t, step, op, text)


def show(trace, upto):
    out = []
    for r in trace["t"][:max(upto, 1)]:
        out.append(ddscript.line(r)[:2000])
    return "\n".join(out)


def record(r):
    return r["op"]
