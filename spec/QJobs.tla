------------------------------- MODULE QJobs --------------------------------
(***************************************************************************)
(* A user's session: a library of parametrised circuits and a history of   *)
(* requests - backend jobs over several circuits, invalid jobs, sampler    *)
(* and estimator calls, merged operators, repetitions with a seed.         *)
(*                                                                         *)
(* The library is grown circuit by circuit with the actions of QCircuit;   *)
(* shelving a circuit turns some of its angles into parameters.  Every     *)
(* request is answered with the exact distribution, vector or expectation  *)
(* value of each of its entries: an entry's answer is a function of the    *)
(* circuit and the values at that position and of nothing else.            *)
(*                                                                         *)
(* A template instruction has `par` in addition: 0, or the parameter that  *)
(* replaces its first angle (negated when par < 0).                        *)
(***************************************************************************)
EXTENDS QCircuit
CONSTANTS
  NLib,             \* circuits in the library
  NPar,             \* most parameters of a circuit
  NJobs,            \* requests in the history
  MaxEntries,       \* most entries of one request
  JobKinds,         \* sequence of request kinds
  Bads              \* ways of spoiling a request
VARIABLES lib, jobs
jvars == <<n, regs, goal, prog, ens, phase, closed, lib, jobs>>

\* ---------------------------------------------------------------- library
HasAngle(ins) == ins.op = "gate" /\ Len(ins.x) > 0
RECURSIVE Templ(_)
Templ(p) == IF p = << >> THEN << >>
  ELSE LET i == Head(p)
           c == IF HasAngle(i) /\ NPar > 0
                THEN RandomElement({0, 1, 2, -1, 3} \cap (-NPar..NPar)) ELSE 0
       IN <<i @@ [par |-> c]>> \o Templ(Tail(p))
RECURSIVE ParsOf(_)
ParsOf(p) == IF p = << >> THEN {} ELSE (IF Head(p).par = 0 THEN {} ELSE {IF Head(p).par < 0 THEN -Head(p).par ELSE Head(p).par}) \cup ParsOf(Tail(p))
Shelve ==
  /\ closed /\ Len(lib) < NLib
  /\ \E t \in {Templ(prog)} :   \* (bound, not defined: the choice is made once)
     lib' = Append(lib, [n |-> n, regs |-> regs, phase |-> phase, prog |-> t, pars |-> ParsOf(t), of |-> 0])
  /\ n' \in Pick(1..MaxQ) /\ regs' \in Pick(RegSizes)
  /\ goal' \in Pick(Len0..Len1)
  /\ prog' = << >> /\ ens' = StartE(n', NBits(regs', Len(regs')))
  /\ phase' \in UNION {{<<j, 0>>, <<0, 0>>} : j \in Pick(-7..8)}
  /\ closed' = FALSE
  /\ UNCHANGED jobs

\* ------------------------------------- near copies of a library circuit
\* They differ in one respect (two qubits or parameters exchanged, one angle, gate, sign or classical bit changed, one
\* instruction repeated), so whatever tells circuits apart has to look at all of it.
Pos(t, P(_)) == {i \in 1..Len(t) : P(t[i])}
Swap2(a, b, z) == IF z = a THEN b ELSE IF z = b THEN a ELSE z
Kin == << {"h", "x", "y", "z", "s", "t", "sdg", "tdg", "sx", "sxdg"}, {"cx", "cy", "cz", "csx"}, {"rx", "ry", "rz", "p"}, {"crx", "cry", "crz", "cp"}, {"rxx", "ryy", "rzz", "rzx"} >>
KinOf(nm) == UNION {Kin[i] : i \in {i \in DOMAIN Kin : nm \in Kin[i]}} \ {nm}
Mutants(t, w, nb, how) ==
  CASE how = "relabel" -> { [i \in 1..Len(t) |-> [t[i] EXCEPT !.q = [z \in DOMAIN @ |-> Swap2(0, b, @[z])]]] : b \in Pick(1..(w - 1)) }
    [] how = "angle" -> { [t EXCEPT ![i].x[1] = a] : i \in Pick(Pos(t, LAMBDA e : HasAngle(e) /\ e.par = 0)), a \in Pick(Angles) }
    [] how = "sign" -> { [t EXCEPT ![i].par = -@] : i \in Pick(Pos(t, LAMBDA e : e.op = "gate" /\ e.par # 0)) }
    [] how = "pars" -> { [i \in 1..Len(t) |-> [t[i] EXCEPT !.par = IF @ > 0 THEN Swap2(1, 2, @) ELSE -Swap2(1, 2, -@)]] : z \in {1} }
    [] how = "name" -> UNION { { [t EXCEPT ![i].name = nm] : nm \in Pick(KinOf(t[i].name)) } : i \in Pick(Pos(t, LAMBDA e : e.op = "gate" /\ KinOf(e.name) # {})) }
    [] how = "twice" -> { SubSeq(t, 1, i) \o SubSeq(t, i, Len(t)) : i \in Pick(1..Len(t)) }
    [] how = "bit" -> { [t EXCEPT ![i].b = b] : i \in Pick(Pos(t, LAMBDA e : e.op = "measure")), b \in Pick(0..(nb - 1)) }
    [] how = "body" -> UNION { { [t EXCEPT ![i].body[m].x[1] = a] : m \in Pick(Pos(t[i].body, LAMBDA e : e.x # << >>)), a \in Pick(Angles) }
                               : i \in Pick(Pos(t, LAMBDA e : e.op = "call")) }
    [] how = "cond" -> { [t EXCEPT ![i].cond.val = IF @ = 0 THEN 1 ELSE 0] : i \in Pick(Pos(t, LAMBDA e : e.cond.kind # "none")) }
    [] how = "polarity" -> UNION { { [t EXCEPT ![i].cs[m] = 1 - @] : m \in Pick(1..Len(t[i].cs)) } : i \in Pick(Pos(t, LAMBDA e : e.op = "gate" /\ e.cs # << >>)) }
MutKinds == {"body", "cond", "polarity", "relabel", "angle", "sign", "pars", "name", "twice", "bit"}
Vary ==
  /\ prog = << >> /\ ~closed /\ Len(lib) > 0 /\ Len(lib) < NLib
  /\ \E j \in Pick(1..Len(lib)) : \E how \in Pick(MutKinds) :
     \E t \in Mutants(lib[j].prog, lib[j].n, NBits(lib[j].regs, Len(lib[j].regs)), how) :
       /\ t # lib[j].prog
       /\ lib' = Append(lib, [lib[j] EXCEPT !.prog = t, !.pars = ParsOf(t), !.of = IF @ = 0 THEN j ELSE @])
  /\ UNCHANGED <<n, regs, goal, prog, ens, phase, closed, jobs>>

\* ------------------------------------------------- meaning of one entry
Value(c, v) == IF c > 0 THEN v[c] ELSE <<-v[-c][1], -v[-c][2]>>
Bound(ins, v) == IF ins.par = 0 THEN ins ELSE [ins EXCEPT !.x = <<Value(ins.par, v)>> \o Tail(ins.x)]
Small(e) == Len(e) <= MaxBranches /\ \A i \in 1..Len(e) : e[i].v.k <= 22 /\ e[i].v.m <= 4
RECURSIVE RunT(_, _, _, _)
\* << >> when the exact values outgrow the integers
RunT(p, e, v, rg) ==
  IF p = << >> THEN e
  ELSE IF ~Small(e) THEN << >>
  ELSE LET e2 == StepE(Bound(Head(p), v), e, rg) IN IF Fits(e2) THEN RunT(Tail(p), e2, v, rg) ELSE << >>
Final(l, v) == LET t == lib[l] IN RunT(t.prog, StartE(t.n, NBits(t.regs, Len(t.regs))), v, t.regs)

\* ------------------------------------------------------------ observables
Coefs == {-2, -1, 1, 2, 3}
Paulis(w) == [1..w -> {"I", "X", "Y", "Z"}]
RECURSIVE PickTerms(_, _)
PickTerms(t, w) == IF t = 0 THEN << >>
  ELSE Append(PickTerms(t - 1, w), [c |-> RandomElement(Coefs),
              p |-> IF RandomElement(1..5) = 1 THEN [i \in 1..w |-> "I"] ELSE RandomElement(Paulis(w))])
\* an observable is a sum with distinct terms
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i].p # s[j].p
Observables(w) == {o \in UNION {{PickTerms(t, w), PickTerms(1, w)} : t \in Pick(1..4)} : Distinct(o)}

\* ---------------------------------------------------------------- requests
Vals == [1..3 -> Pick(Angles)]
PickVals == IF Pick({1, 2}) = {1, 2} THEN Vals ELSE {[i \in 1..3 |-> RandomElement(Angles)]}
Clbits(l) == NBits(lib[l].regs, Len(lib[l].regs))
Measured(l) == \E i \in 1..Len(lib[l].prog) : lib[l].prog[i].op = "measure"
Unitary(l) == \A i \in 1..Len(lib[l].prog) : lib[l].prog[i].op \notin {"measure", "reset"}
\* values already used somewhere in the history: requests repeat themselves
Used == UNION { {jobs[j].entries[e].v : e \in 1..Len(jobs[j].entries)} : j \in 1..Len(jobs) }
\* ... also with two values exchanged
EntryVals(U) == IF U = {} THEN PickVals
  ELSE UNION {IF z = 1 THEN Pick(U) ELSE IF z = 2 THEN {<<v[2], v[1], v[3]>> : v \in Pick(U)} ELSE PickVals : z \in Pick(1..4)}
\* s: the entries before this one; circuits of the request repeat themselves as well
EntryCirc(s, LL) == LET old == {s[i].l : i \in 1..Len(s)} \cap LL IN
  UNION {IF z = 1 /\ old # {} THEN Pick(old) ELSE Pick(LL) : z \in Pick(1..2)}
UsedIn(s) == Used \cup {s[i].v : i \in 1..Len(s)}
Plain == [l |-> 0, v |-> << >>, dist |-> << >>, vec |-> [k |-> 0, m |-> 0, a |-> << >>], obs |-> << >>, exps |-> << >>]
\* backend and sampler entries
MeasEntries(s) == UNION { UNION { LET f == Final(l, v) IN
     IF f = << >> THEN {} ELSE { [Plain EXCEPT !.l = l, !.v = v, !.dist = Dist(f)] } : v \in EntryVals(UsedIn(s)) }
   : l \in EntryCirc(s, {l \in 1..NLib : Measured(l)}) }
EstEntries(s) == UNION { UNION { UNION { LET f == Final(l, v) IN
     IF f = << >> \/ ~DotFits(f[1].v) THEN {}
     ELSE { [Plain EXCEPT !.l = l, !.v = v, !.obs = o, !.exps = [i \in 1..Len(o) |-> Expect(o[i].p, f[1].v)]] }
     : o \in Observables(lib[l].n) } : v \in EntryVals(UsedIn(s)) }
   : l \in EntryCirc(s, {l \in 1..NLib : Unitary(l) /\ Clbits(l) = 0}) }
VecEntries(s) == UNION { UNION { LET f == Final(l, v) IN
     IF f = << >> THEN {} ELSE { [Plain EXCEPT !.l = l, !.v = v, !.vec = f[1].v] } : v \in EntryVals(UsedIn(s)) }
   : l \in EntryCirc(s, {l \in 1..NLib : Unitary(l)}) }
RECURSIVE Several(_, _)
Several(kind, k) == IF k = 0 THEN {<< >>}
  ELSE UNION { { Append(s, e) : e \in CASE kind = "est" -> EstEntries(s) [] kind = "vec" -> VecEntries(s) [] OTHER -> MeasEntries(s) }
             : s \in Several(kind, k - 1) }
Job(kind) == [kind |-> kind, entries |-> << >>, bad |-> "", at |-> 0, seed |-> 0, of |-> 0, via |-> "call"]
\* Ways of giving a seed; whichever is used, the request has that seed ("both", "override": a value of lower precedence is given too).
Vias == {"call", "sim", "both", "options", "backend", "override"}
\* seeds 1 and 2 stand for the extreme ones (0 and one above 32 bits)
Seeds(SS) == UNION {IF z = 1 THEN Pick({1, 2}) ELSE Pick(SS) : z \in Pick(1..3)}
JobIns(kind) ==
  CASE kind \in {"run", "sampler", "exactrun"} ->
         UNION { { [Job(kind) EXCEPT !.entries = s] : s \in Several("meas", k) } : k \in Pick(1..MaxEntries) }
    [] kind = "estimator" ->
         UNION { { [Job(kind) EXCEPT !.entries = s] : s \in Several("est", k) } : k \in Pick(1..MaxEntries) }
    [] kind = "bad" ->
         UNION { { [Job(kind) EXCEPT !.entries = s, !.bad = b, !.at = a] : s \in Several("meas", k), b \in Pick(Bads), a \in Pick(1..k) } : k \in Pick(1..MaxEntries) }
    [] kind \in {"seeded", "seededsampler"} ->
         UNION { { [Job(kind) EXCEPT !.entries = s, !.seed = sd, !.via = w] : s \in Several("meas", k), sd \in Seeds(3..1000), w \in Pick(Vias) } : k \in Pick(1..MaxEntries) }
    [] kind = "seededestimator" ->
         UNION { { [Job(kind) EXCEPT !.entries = s, !.seed = sd, !.via = w] : s \in Several("est", k), sd \in Seeds(3..1000), w \in Pick(Vias) } : k \in Pick(1..MaxEntries) }
    [] kind = "repeat" ->    \* the same request once more
         { [jobs[j] EXCEPT !.of = IF jobs[j].of = 0 THEN j ELSE jobs[j].of, !.via = w] : j \in Pick({j \in 1..Len(jobs) : jobs[j].seed > 0}), w \in Pick(Vias) }
    [] kind = "reseed" ->    \* the same request with another seed
         { [jobs[j] EXCEPT !.seed = IF sd = @ THEN sd + 1 ELSE sd, !.of = 0, !.via = w] : j \in Pick({j \in 1..Len(jobs) : jobs[j].seed > 0}), sd \in Seeds(1001..2000), w \in Pick(Vias) }
    [] kind = "merge" -> { [Job(kind) EXCEPT !.entries = s] : s \in Several("vec", 1) }
    [] kind = "use" ->       \* an operator merged earlier, applied to |0..0>
         { [jobs[j] EXCEPT !.kind = "use", !.of = j] : j \in Pick({j \in 1..Len(jobs) : jobs[j].kind = "merge"}) }
    [] kind = "drop" ->
         { [Job(kind) EXCEPT !.of = j] : j \in Pick({j \in 1..Len(jobs) : jobs[j].kind = "merge"
              /\ \A i \in 1..Len(jobs) : jobs[i].kind = "drop" => jobs[i].of # j}) }
    [] kind = "statevector" -> UNION { { [Job(kind) EXCEPT !.entries = s] : s \in Several("vec", k) } : k \in Pick(1..MaxEntries) }

Dropped == {jobs[i].of : i \in {i \in 1..Len(jobs) : jobs[i].kind = "drop"}}
Request ==
  /\ Len(lib) = NLib /\ Len(jobs) < NJobs
  /\ \E k \in Pick(1..Len(JobKinds)) : \E j \in JobIns(JobKinds[k]) :
       /\ j.kind = "use" => j.of \notin Dropped
       /\ jobs' = Append(jobs, j)
  /\ UNCHANGED <<n, regs, goal, prog, ens, phase, closed, lib>>

JInit == Init /\ lib = << >> /\ jobs = << >>
JNext == \/ Len(lib) < NLib /\ (Grow \/ Close) /\ UNCHANGED <<lib, jobs>>
         \/ Shelve
         \/ Vary
         \/ Request
         \/ Len(lib) = NLib /\ Len(jobs) < NJobs /\ UNCHANGED jvars  \* an instance that had no request to offer is left alone
\* an invalid request always has a reason; a repetition refers to an earlier request
WellFormed == \A j \in 1..Len(jobs) :
  /\ (jobs[j].kind = "bad") <=> (jobs[j].bad # "")
  /\ jobs[j].of < j
JEmitted == (Len(lib) = NLib /\ Len(jobs) = NJobs) => PrintT("@@" \o ToJson([lib |-> lib, jobs |-> jobs]))
=============================================================================
