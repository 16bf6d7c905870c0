------------------------------ MODULE QCircuit ------------------------------
(***************************************************************************)
(* A circuit executed instruction by instruction.  Each step appends one   *)
(* instruction and carries the exact ensemble along; a complete behaviour  *)
(* is one circuit with its exact outcome distribution (and final vector    *)
(* when nothing has been measured), which the conformance driver compares  *)
(* with what the backend reports.                                          *)
(***************************************************************************)
EXTENDS Circuits, Json
CONSTANTS
  MaxQ, MaxC,       \* most qubits and classical bits
  Len0, Len1,       \* least and most instructions
  Kinds,            \* sequence of step kinds (repetition is weight): "gate" "clifford" "unitary" "measure" "reset" "barrier"
  CondP,            \* of 10 gates, how many carry a condition
  OpenCtrl,         \* whether control states other than all-ones occur
  FinalMeas,        \* "none", "all", "some": measurements appended at the end
  MaxBranches,
  GateNames,        \* the gate names in use
  Pick(_)
PickOne(SS) == IF SS = {} THEN {} ELSE {RandomElement(SS)}
PickAll(SS) == SS

VARIABLES n, regs, goal, prog, ens, phase, closed
vars == <<n, regs, goal, prog, ens, phase, closed>>
Qb == 0..(n - 1)
NC == NBits(regs, Len(regs))

Angles == {<<j, 0>> : j \in -8..8} \cup {<<j, g>> : j \in {0, 1, 3, -2}, g \in {1, -1}}
Lattice == {<<j, 0>> : j \in -8..8}
AngleSeqs(c) ==
  IF c = 0 THEN {<< >>}
  ELSE IF c = 1 THEN {<<a>> : a \in Pick(Angles)}
  ELSE IF c = 2 THEN {<<a, b>> : a \in Pick(Angles), b \in Pick(Lattice)}
  ELSE IF c = 3 THEN {<<a, b, d>> : a \in Pick(Angles), b \in Pick(Lattice), d \in Pick(Lattice)}
  ELSE {<<a, b, d, e>> : a \in Pick(Angles), b \in Pick(Lattice), d \in Pick(Lattice), e \in Pick(Lattice)}
SeqsOf(w, N) == {T \in [1..w -> 0..(N - 1)] : \A i, j \in 1..w : i # j => T[i] # T[j]}
Seqs(w) == SeqsOf(w, n)
RegSizes == { s \in {<< >>, <<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<1, 1, 1>>, <<3, 1>>, <<1, 3>>, <<2, 1, 1>>, <<4>>, <<2, 3>>} :
              NBits(s, Len(s)) <= MaxC }

\* conditions, when there is anything to condition on
Conds ==
  IF NC = 0 THEN {NoCond}
  ELSE UNION { IF d > CondP THEN {NoCond}
               ELSE IF d % 2 = 0 THEN { [kind |-> "bit", i |-> i, val |-> v] : i \in Pick(0..(NC - 1)), v \in Pick({0, 1}) }
               ELSE UNION { { [kind |-> "reg", i |-> r, val |-> v] : v \in Pick(0..(Pow2(regs[r]) - 1)) } : r \in Pick(1..Len(regs)) }
             : d \in Pick(1..10) }

CtrlStates(c) == IF OpenCtrl THEN [1..c -> {0, 1}] ELSE {[i \in 1..c |-> 1]}
\* gates on a register of N qubits, under a condition of CD
GatesOn(N, CD) ==
  UNION { UNION {
    LET nt == QTargets(nm)
        nc == IF QCtrls(nm) = -1 THEN w - nt ELSE QCtrls(nm) IN
    { [op |-> "gate", name |-> nm, x |-> ax, q |-> T, cs |-> s, cond |-> cd]
      : ax \in AngleSeqs(QAngles(nm)), T \in Pick(SeqsOf(nc + nt, N)), s \in Pick(CtrlStates(nc)), cd \in CD }
    : w \in IF QCtrls(nm) = -1 THEN Pick(2..N) ELSE {0} }
  : nm \in Pick({nm \in GateNames : QMinWidth(nm) <= N}) }
GateIns == GatesOn(n, Conds)
\* a circuit merged into one instruction, placed on the qubits q
RECURSIVE Bodies(_, _)
Bodies(len, N) == IF len = 0 THEN {<< >>}
  ELSE { Append(bd, g) : bd \in Bodies(len - 1, N), g \in GatesOn(N, {NoCond}) }
CallIns ==
  UNION { UNION { { [op |-> "call", body |-> bd, q |-> T, cond |-> NoCond] : T \in Pick(Seqs(w)), bd \in Bodies(l, w) }
    : l \in Pick(1..4) } : w \in Pick(1..n) }
CliffNames == {"h", "id", "sdg", "s", "sxdg", "sx", "x", "y", "z", "cx", "cy", "cz", "swap", "iswap"}
\* gates that create superposition
MixIns ==
  UNION { { [op |-> "gate", name |-> nm, x |-> ax, q |-> T, cs |-> << >>, cond |-> cd]
      : ax \in AngleSeqs(QAngles(nm)), T \in Pick(Seqs(1)), cd \in Conds }
  : nm \in Pick({"h", "ry", "sx", "rx", "u", "r"} \cap GateNames) }
CliffIns ==
  UNION { { [op |-> "gate", name |-> nm, x |-> << >>, q |-> T, cs |-> s, cond |-> cd]
      : T \in Pick(Seqs(QCtrls(nm) + QTargets(nm))), s \in Pick(CtrlStates(QCtrls(nm))), cd \in Conds }
  : nm \in Pick({nm \in CliffNames \cap GateNames : QMinWidth(nm) <= n}) }

\* an exact unitary on t qubits: a product of gates
Ident(t) == [k |-> 0, m |-> 0, a |-> [j \in 1..Pow2(2 * t) |-> IF (j - 1) \div Pow2(t) = (j - 1) % Pow2(t) THEN One ELSE Zero]]
RECURSIVE RandU(_, _, _)
RandU(t, c, acc) ==
  IF c = 0 THEN acc
  ELSE LET nm == RandomElement({"h", "t", "sx", "ry", "p", "u", "s"})
           tg == RandomElement(0..(t - 1))
           ctl == RandomElement(SUBSET ((0..(t - 1)) \ {tg}))
           ax == CHOOSE z \in AngleSeqs(QAngles(nm)) : TRUE
       IN RandU(t, c - 1, Apply(GateMatrix(QBase(nm), ax), <<tg + t>>, {z + t : z \in ctl}, {}, acc))
AsGate(x, t) == [k |-> x.k, m |-> x.m, g |-> [r \in 1..Pow2(t) |-> [c \in 1..Pow2(t) |-> x.a[(r - 1) * Pow2(t) + c]]]]
UnitaryIns ==
  UNION { { [op |-> "unitary", y |-> y, q |-> T, cond |-> cd] : T \in Pick(Seqs(t)), y \in {AsGate(RandU(t, 3, Ident(t)), t)}, cd \in Conds }
        : t \in Pick(1..(IF n > 3 THEN 3 ELSE n)) }

MeasIns == { [op |-> "measure", q |-> <<q>>, b |-> b, cond |-> cd] : q \in Pick(Qb), b \in Pick(0..(NC - 1)), cd \in Conds }
ResetIns == { [op |-> "reset", q |-> <<q>>, cond |-> NoCond] : q \in Pick(Qb) }
BarrierIns == { [op |-> "barrier", q |-> T, cond |-> NoCond] : T \in Pick(Seqs(IF n = 1 THEN 1 ELSE 2)) }
Ins(kind) == CASE kind = "gate" -> GateIns [] kind = "clifford" -> CliffIns [] kind = "mix" -> MixIns [] kind = "unitary" -> UnitaryIns
  [] kind = "call" -> CallIns
  [] kind = "measure" -> (IF NC = 0 THEN BarrierIns ELSE MeasIns) [] kind = "reset" -> ResetIns [] kind = "barrier" -> BarrierIns

\* (a set of initial states, one of which the simulator draws for each behaviour: it evaluates Init only once)
Phases == {<<j, 0>> : j \in -7..8} \cup {<<j, g>> : j \in -7..8, g \in {1, -1}}
Init ==
  /\ n \in 1..MaxQ /\ regs \in RegSizes /\ goal \in Len0..Len1
  /\ prog = << >> /\ ens = StartE(n, NC)
  /\ phase \in Phases
  /\ closed = FALSE

\* operands small enough for exact arithmetic; otherwise the instruction is dropped
Add1(ins) ==
  LET small == \A i \in 1..Len(ens) : ens[i].v.k <= 22 /\ ens[i].v.m <= 4
      next == IF small THEN StepE(ins, ens, regs) ELSE ens
  IN IF small /\ Fits(next) /\ Len(next) <= MaxBranches
     THEN prog' = Append(prog, ins) /\ ens' = next
     ELSE goal' = goal - 1 /\ UNCHANGED <<prog, ens>>
Grow ==
  /\ ~closed /\ Len(prog) < goal
  /\ \E i \in Pick(1..Len(Kinds)) : \E ins \in Ins(Kinds[i]) :
       \/ Add1(ins) /\ (Len(prog') > Len(prog) => goal' = goal)
  /\ UNCHANGED <<n, regs, phase, closed>>

RECURSIVE MeasSeq(_, _, _)
MeasSeq(Q, B, k) == IF k = 0 THEN << >>
  ELSE Append(MeasSeq(Q, B, k - 1), [op |-> "measure", q |-> <<Q[k]>>, b |-> B[k], cond |-> NoCond])
Close ==
  /\ ~closed /\ Len(prog) >= goal
  /\ closed' = TRUE
  /\ IF FinalMeas = "none" \/ NC = 0 THEN UNCHANGED <<prog, ens>>
     ELSE \E k \in Pick(IF FinalMeas = "all" THEN {IF n < NC THEN n ELSE NC} ELSE 1..(IF n < NC THEN n ELSE NC)) :
            \E Q \in Pick(Seqs(k)) : \E B \in Pick({T \in [1..k -> 0..(NC - 1)] : FinalMeas = "some" \/ \A i, j \in 1..k : i # j => T[i] # T[j]}) :
              LET ms == MeasSeq(Q, B, k) IN
              prog' = prog \o ms /\ ens' = RunE(ms, ens, regs)
  /\ UNCHANGED <<n, regs, goal, phase>>
Next == Grow \/ Close
Spec == Init /\ [][Next]_vars

\* probabilities add up to one
RECURSIVE SumD(_, _)
MaxK(d) == CHOOSE x \in {d[i].w.k : i \in 1..Len(d)} : \A i \in 1..Len(d) : d[i].w.k <= x
MaxM(d) == CHOOSE x \in {d[i].w.m : i \in 1..Len(d)} : \A i \in 1..Len(d) : d[i].w.m <= x
SumD(d, i) == IF i = 0 THEN <<0, 0>>
  ELSE LET r == SumD(d, i - 1)  f == Pow(2, MaxK(d) - d[i].w.k) * Pow(25, MaxM(d) - d[i].w.m)
       IN <<r[1] + d[i].w.p * f, r[2] + d[i].w.q * f>>
TotalOne == closed => LET d == Dist(ens) s == SumD(d, Len(d)) IN
   (MaxK(d) + 5 * MaxM(d) <= 28) => s[1] = Pow(2, MaxK(d)) * Pow(25, MaxM(d)) /\ s[2] = 0
\* every branch that is kept is possible
AllPossible == \A i \in 1..Len(ens) : ~VIsZero(ens[i].v)

Emitted == closed => PrintT("@@" \o ToJson([n |-> n, regs |-> regs, phase |-> phase, prog |-> prog, dist |-> Dist(ens),
                                           vec |-> IF Len(ens) = 1 THEN ens[1].v ELSE [k |-> 0, m |-> 0, a |-> << >>]]))
=============================================================================
