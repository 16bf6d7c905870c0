#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ("TLC enumerates one-step sweeps completely and random behaviours of the exact-arithmetic specification; every one is "
       "replayed through the real engine and each answer compared. Bounded: registers of at most 5 qubits, random histories; "
       "trusts TLC, the driver and a 1e-9 comparison tolerance.")
PY = ("TLC enumerates one-instruction sweeps completely and random circuits/sessions of the exact-arithmetic circuit specification; each is "
      "run through the real Python package (built from /repo) and every outcome distribution, probability and result pairing is compared. "
      "Bounded: small registers (sparse circuits up to 80 qubits, products of blocks up to 100), random circuits; trusts TLC, the driver, exact binomial/chi-square "
      "bounds with false-alarm rate below 1e-6 per run.")
MT = ("TLC explores the concurrent specification exhaustively within its bounds; schedules it emits are forced on the real table through "
      "the QDD_VERIF hooks, recorded histories are checked against it, and engine behaviours run on 1-8 threads. Bounded: few nodes and "
      "threads in the exhaustive part, the schedules that occur in the stress part; trusts TLC, the hooks and the driver.")
MPI = ("TLC explores the exchange protocol exhaustively for up to 8 processes and emits random behaviours of the exact-arithmetic distributed "
       "specification, replayed under mpirun with 1, 2, 4 and 8 processes on one host. Bounded: at most 5 qubits; trusts TLC, Open MPI and "
       "the driver.")
T = {
 "C01": ("TLA+ spec DDEngine/GateSweep, TLC traces replayed into the engine", "model_checking", SIM),
 "C02": ("TLA+ spec DDEngine/GateSweep, TLC traces replayed into the engine", "model_checking", SIM),
 "C03": ("TLA+ spec DDEngine (sharing relation), TLC traces replayed into the engine", "model_checking", SIM),
 "C04": ("TLA+ spec DDEngine with collections, TLC traces replayed with tiny tables", "model_checking", SIM),
 "C05": ("TLA+ spec DDEngine (exact Born weights), TLC traces replayed, exact binomial tests", "model_checking", SIM),
 "C06": ("TLA+ spec DDEngine (store/send steps), TLC traces replayed within and across processes", "model_checking", SIM),
 "C07": ("TLA+ specs ForkJoin and DDEngine, TLC behaviours replayed on the multi-threaded engine", "model_checking", MT),
 "C08": ("TLA+ specs UniqueTable and LookupTrace: forced interleavings replayed, recorded histories validated by TLC", "model_checking", MT),
 "C09": ("TLA+ specs BlockApply (exhaustive) and DDist, TLC behaviours replayed on 1-8 processes", "model_checking", MPI),
 "C10": ("TLA+ spec DDist (exact Born weights), TLC behaviours replayed on 1-8 processes, exact binomial tests", "model_checking", MPI),
 "C11": ("TLA+ specs Relocate (exhaustive) and QCircuit, TLC behaviours replayed through the Python backend on 2 and 4 processes", "model_checking", MPI),
 "C12": ("TLA+ spec QCircuit/QWide/QBlocks/QSums (exact outcome distributions), TLC behaviours replayed through the Qiskit backend", "model_checking", PY),
 "C13": ("TLA+ specs QCircuit/QBlocks/QSums with conditions/reset/mid-circuit measurement, TLC behaviours replayed through the Qiskit backend", "model_checking", PY),
 "C14": ("TLA+ spec QCircuit/QWide, TLC behaviours replayed with shots=None", "model_checking", PY),
 "C15": ("TLA+ spec QSweep/QCircuit (instruction sweep), TLC behaviours replayed through the Qiskit backend", "model_checking", PY),
 "C16": ("TLA+ spec QJobs (job sessions), TLC behaviours replayed through the Qiskit backend", "model_checking", PY),
 "C17": ("TLA+ spec QJobs (sampler requests), TLC behaviours replayed through the Sampler", "model_checking", PY),
 "C18": ("TLA+ spec QJobs (estimator requests), TLC behaviours replayed through the Estimator", "model_checking", PY),
 "C19": ("TLA+ spec QJobs/QCircuit, TLC behaviours replayed under every execution option", "model_checking", PY),
 "C20": ("TLA+ spec QJobs (seeded runs), TLC behaviours replayed in fresh and shared processes", "model_checking", PY),
 "C21": ("TLA+ specs QBlocks and QSums (exact states of wide registers: products of blocks, sums held by entangled accumulators), TLC behaviours replayed into the engine and the backend", "model_checking",
         "TLC emits random behaviours of the exact-arithmetic specification of registers of 20 to 100 qubits that stay products of small blocks or hold sums, "
         "with the size of the canonical diagram; each is built gate by gate in the real engine (states, and operators of blocks) and taken apart again; "
         "sizes, outcomes, and the time and memory of every step are bounded. Bounded: blocks of at most 3 and accumulators of at most 4 qubits; generous time limits."),
 "C22": ("TLA+ specs Overlap (jobs sharing the engine, exhaustive; schedules) and QJobs, TLC behaviours replayed with all requests pending at once", "model_checking",
         "TLC explores jobs that share one engine exhaustively (and refutes the variants without turns), emits random request histories with their exact answers and random "
         "schedules; the requests run in threads of the real package, whose engine calls follow the schedules where the package lets them. Bounded: 8 to 10 requests on "
         "small circuits, schedules not exhaustive on the real code; trusts TLC, the driver, Qiskit."),
}
NA = []
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
done = [p for p in props if p in T]
na = [{"property": p, "reason": dict(NA).get(p, "check under construction")} for p in props if p not in T]
m = {
 "version": 1,
 "setup_cmd": "python3 tools/setup.py",
 "hooks": {"guard": "QDD_VERIF", "enable": "the checks compile /repo's sources with -DQDD_VERIF -DQDD_VERIF_NBUCKETS=<n> -DQDD_VERIF_ALLOC=<n>",
           "source_commits": ["7e4742c"]},
 "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
             "technique": T[p][0], "level": T[p][1], "level_note": T[p][2]} for p in done],
 "not_applicable": na,
 "notes": "All checks: python3 tools/check.py <id>; see DESIGN.md.",
}
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", x], capture_output=True, text=True).stdout.strip() or x
                                for x in m["hooks"]["source_commits"]]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
