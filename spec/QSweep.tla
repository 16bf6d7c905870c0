------------------------------- MODULE QSweep -------------------------------
(***************************************************************************)
(* Exhaustive sweep over the instruction set: every supported instruction  *)
(* name, on every register width up to MaxQ, on every ordered tuple of     *)
(* distinct qubits, with every control state and a set of angles, applied  *)
(* to a state in which all amplitudes differ.  One initial state per case. *)
(***************************************************************************)
EXTENDS QCircuit
CONSTANTS SweepNames, Widths, SweepOpen

RECURSIVE Prefix(_)
I1(nm, ax, q) == [op |-> "gate", name |-> nm, x |-> ax, q |-> <<q>>, cs |-> << >>, cond |-> NoCond]
Prefix(q) == IF q = 0 THEN << >>
  ELSE Prefix(q - 1) \o <<I1("ry", <<<<q, 1>>>>, q - 1), I1("p", <<<<2 * q - 1, 0>>>>, q - 1)>>
Few == {<<1, 0>>, <<-3, 0>>, <<4, 0>>, <<1, 1>>}
SweepAngles(c) ==
  IF c = 0 THEN {<< >>}
  ELSE IF c = 1 THEN {<<a>> : a \in Few}
  ELSE IF c = 2 THEN {<<a, b>> : a \in {<<1, 0>>, <<-2, 1>>}, b \in {<<3, 0>>, <<-1, 0>>}}
  ELSE IF c = 3 THEN {<<a, b, d>> : a \in {<<1, 0>>, <<2, 1>>}, b \in {<<3, 0>>, <<-1, 0>>}, d \in {<<2, 0>>}}
  ELSE {<<a, b, d, e>> : a \in {<<1, 1>>}, b \in {<<3, 0>>, <<-1, 0>>}, d \in {<<2, 0>>}, e \in {<<0, 0>>, <<-3, 0>>}}
Ctrls(c) == IF SweepOpen THEN [1..c -> {0, 1}] ELSE {[i \in 1..c |-> 1]}
Cases(w) == UNION { UNION {
    LET nt == QTargets(nm)
        nc == IF QCtrls(nm) = -1 THEN t - nt ELSE QCtrls(nm) IN
    { [op |-> "gate", name |-> nm, x |-> ax, q |-> T, cs |-> s, cond |-> NoCond]
      : ax \in SweepAngles(QAngles(nm)), T \in SeqsOf(nc + nt, w), s \in Ctrls(nc) }
    : t \in IF QCtrls(nm) = -1 THEN 2..w ELSE {0} }
  : nm \in {z \in SweepNames : QMinWidth(z) <= w} }
SwInit == \E w \in Widths : \E ins \in Cases(w) :
  /\ n = w /\ regs = << >> /\ goal = 0 /\ closed = TRUE /\ phase = <<0, 0>>
  /\ prog = Append(Prefix(w), ins)
  /\ ens = RunE(Append(Prefix(w), ins), StartE(w, 0), << >>)
SwNext == UNCHANGED vars
=============================================================================
