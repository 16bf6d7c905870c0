----------------------------- MODULE GateSweep ------------------------------
(***************************************************************************)
(* Exhaustive one-step sweep of the engine API: every gate, every angle    *)
(* of a fixed list, every target and every set of signed controls, on a    *)
(* state (or as an operator) without symmetry.  One TLC state per case.    *)
(***************************************************************************)
EXTENDS DDEngine
CONSTANTS SweepOp,     \* "vgate", "mgate", "mlarge"
          SweepN       \* register width

\* a state all of whose amplitudes differ
Generic(n) == Reduce([k |-> 0, m |-> 0, a |-> [j \in 1..Pow2(n) |-> <<j, (j % 3) - 1, 2 - j, IF j % 2 = 0 THEN 1 ELSE -2>>]])
SweepAngles(nm) ==
  LET c == NAngles(nm) IN
  IF c = 0 THEN {<< >>}
  ELSE IF c = 1 THEN {<<x>> : x \in {<<1, 0>>, <<-2, 0>>, <<3, 1>>, <<4, 0>>, <<8, 0>>}}
  ELSE IF c = 2 THEN {<<<<1, 0>>, <<3, 1>>>>, <<<<-2, 1>>, <<5, 0>>>>}
  ELSE IF c = 3 THEN {<<<<1, 0>>, <<3, 1>>, <<-2, 0>>>>, <<<<2, 1>>, <<-1, 0>>, <<6, 0>>>>}
  ELSE {<<<<1, 0>>, <<3, 0>>, <<-2, 1>>, <<1, 0>>>>}
Gates1(n) == { g \in [name : Names1, x : UNION {SweepAngles(nm) : nm \in Names1}, T : {<<t>> : t \in Qubits(n)},
                      P : SUBSET Qubits(n), Q : SUBSET Qubits(n)] :
               g.x \in SweepAngles(g.name) /\ g.P \cap g.Q = {} /\ g.T[1] \notin g.P \cup g.Q }
Gates2(n) == { g \in [name : Names2, x : UNION {SweepAngles(nm) : nm \in Names2},
                      T : {T \in Qubits(n) \X Qubits(n) : T[1] # T[2]}, P : SUBSET Qubits(n), Q : SUBSET Qubits(n)] :
               g.x \in SweepAngles(g.name) /\ g.P \cap g.Q = {} /\ {g.T[1], g.T[2]} \cap (g.P \cup g.Q) = {} }
AllGates(n) == Gates1(n) \cup Gates2(n)

\* the inverse of a gate restores the state it was applied to
RECURSIVE Back(_, _, _)
Back(gs, g, v) == IF gs = << >> THEN v ELSE Back(Tail(gs), g, Apply(GateMatrix(Head(gs)[1], Head(gs)[2]), g.T, g.P, g.Q, v))
Norm(v) == LET r == Reduce([k |-> v.k, m |-> v.m, a |-> v.a]) IN <<r.k, r.m, r.a>>
Undone(g, v) == LET b == Norm(Back(InvGates(g.name, g.x), g, v)) IN Assert(b = Norm(vec[1]), <<"not an inverse", g, b, Norm(vec[1])>>)

SweepInit ==
  /\ nq = SweepN
  /\ LET v == Raw(Generic(SweepN)) IN
     /\ vec = [h \in 1..HV |-> IF h = 1 THEN v ELSE Dead]
     /\ trace = << [op |-> "loadv", d |-> 1, v |-> JV(v)] >>
  /\ mat = [h \in 1..HM |-> MDead]
SweepNext ==
  /\ Len(trace) = 1
  /\ \/ /\ SweepOp = "vgate"
        /\ \E g \in AllGates(nq) :
             LET v == Raw(Apply(GM(g), g.T, g.P, g.Q, vec[1])) IN
             /\ Undone(g, v) /\ SetV(2, v) /\ UNCHANGED <<nq, mat>>
             /\ Emit([op |-> "vgate", d |-> 2, s |-> 1, g |-> JGate(g), f |-> 0, v |-> JV(v)])
     \/ /\ SweepOp = "mgate"
        /\ \E g \in AllGates(nq) :
             LET x == GateAsMatrix(g, nq) IN
             /\ SetM(1, x) /\ UNCHANGED <<nq, vec>>
             /\ Emit([op |-> "mgate", d |-> 1, n |-> nq, g |-> JGate(g), f |-> 0, x |-> x])
     \/ /\ SweepOp = "mlarge"
        /\ \E t \in 1..nq : \E T \in InjSeqs(nq, t), rep \in 1..3 :
             \E y \in {IF rep = 1 THEN RandMatrix(t) ELSE UnitaryMatrix(t, rep + 1, Ident(t))} :
               LET x == Apply(AsGate(y), ShiftSeq(T, nq), {}, {}, Ident(nq)) IN
               /\ SetM(1, x) /\ UNCHANGED <<nq, vec>>
               /\ Emit([op |-> "mlarge", d |-> 1, n |-> nq, T |-> T, y |-> y, x |-> x])
SweepEmit == Len(trace) = 2 => PrintT("@@" \o ToJson([t |-> trace, share |-> [v |-> << >>, m |-> << >>]]))
=============================================================================
