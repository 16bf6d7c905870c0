-------------------------------- MODULE QWide -------------------------------
(***************************************************************************)
(* Wide registers.  The state is a sparse map: a set of terms              *)
(* [s |-> the set of qubits that are 1, a |-> exact amplitude], with one   *)
(* common scale 2^(-k/2) 5^(-m).  Programs use gates that keep the number  *)
(* of terms small, so registers of dozens of qubits are exact.             *)
(***************************************************************************)
EXTENDS Circuits, Json, TLC
CONSTANTS MinN, MaxN, MaxC, Len0, Len1, MaxTerms,
          Mode,     \* "counts": measurements at the end; "expect": an observable at the end
          Pick(_)
PickOne(SS) == IF SS = {} THEN {} ELSE {RandomElement(SS)}
VARIABLES n, nc, goal, prog, terms, k, m, hot, dist, obs, closed
vars == <<n, nc, goal, prog, terms, k, m, hot, dist, obs, closed>>
\* terms: sequence of [s, a]; hot: the qubits programs concentrate on
Find(ts, s) == {i \in 1..Len(ts) : ts[i].s = s}
\* add amplitude a to basis state s
Put(ts, s, a) == LET f == Find(ts, s) IN
  IF f = {} THEN Append(ts, [s |-> s, a |-> a])
  ELSE LET i == CHOOSE i \in f : TRUE IN [ts EXCEPT ![i].a = Add(@, a)]
RECURSIVE Collect(_, _)
Collect(src, acc) == IF src = << >> THEN acc ELSE Collect(Tail(src), Put(acc, Head(src).s, Head(src).a))
Clean(ts) == SelectSeq(ts, LAMBDA t : t.a # Zero)
Flip(s, q) == IF q \in s THEN s \ {q} ELSE s \cup {q}
\* an amplitude that the gate leaves alone, brought to the gate's scale
MulScale(g, a) == Lift(a, g.k, g.m)
\* one-qubit matrix g (2x2 of ring elements) on target q where the controls hold
On1(g, q, P, Q, t) ==
  IF ~(P \subseteq t.s /\ Q \cap t.s = {}) THEN <<[s |-> t.s, a |-> MulScale(g, t.a)]>>
  ELSE LET b == IF q \in t.s THEN 2 ELSE 1
           s0 == t.s \ {q}  s1 == t.s \cup {q}
           x0 == Mul(g.g[1][b], t.a)  x1 == Mul(g.g[2][b], t.a)
       IN (IF x0 = Zero THEN << >> ELSE <<[s |-> s0, a |-> x0]>>) \o (IF x1 = Zero THEN << >> ELSE <<[s |-> s1, a |-> x1]>>)
RECURSIVE Each1(_, _, _, _, _)
Each1(g, q, P, Q, ts) == IF ts = << >> THEN << >> ELSE On1(g, q, P, Q, Head(ts)) \o Each1(g, q, P, Q, Tail(ts))
SwapSet(s, x, y) == LET r == s \ {x, y} IN r \cup (IF x \in s THEN {y} ELSE {}) \cup (IF y \in s THEN {x} ELSE {})

\* canonical scale
Shrink(ts, kk, mm) == LET r == Reduce([k |-> kk, m |-> mm, a |-> [i \in 1..Len(ts) |-> ts[i].a]]) IN
  [ts |-> [i \in 1..Len(ts) |-> [s |-> ts[i].s, a |-> r.a[i]]], k |-> r.k, m |-> r.m]
Bounded(ts) == \A i \in 1..Len(ts) : \A e \in 1..4 : ts[i].a[e] <= 3000 /\ ts[i].a[e] >= -3000

Names == {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "p", "ry", "rz", "cx", "cy", "cz", "ccx", "mcx", "cp", "mcp", "csx", "crz", "swap", "cswap"}
\* weight on reversible gates and on the hot qubits
NameBag == {<<nm, i>> : nm \in Names, i \in 1..2} \cup {<<nm, i>> : nm \in {"x", "cx", "ccx", "mcx", "swap", "h", "cswap"}, i \in 3..6}
Ang == {<<j, 0>> : j \in -7..8} \cup {<<0, 1>>, <<2, 1>>, <<1, -1>>}
RECURSIVE Chain(_, _)
\* (bound choices: each qubit is chosen once)
Chain(w, SS) == IF w = 0 THEN {<< >>}
  ELSE UNION { UNION { { <<q>> \o r : r \in Chain(w - 1, SS \cup {q}) }
       : q \in Pick(IF z = 1 \/ hot \ SS = {} THEN (0..(n - 1)) \ SS ELSE hot \ SS) } : z \in Pick(1..3) }
Ins == UNION { UNION { UNION {
    LET nt == QTargets(nm[1]) IN
    { [op |-> "gate", name |-> nm[1], x |-> ax, q |-> T, cs |-> cs, cond |-> NoCond]
      : ax \in (IF QAngles(nm[1]) = 0 THEN {<< >>} ELSE {<<a>> : a \in Pick(Ang)}), T \in Chain(c + nt, {}), cs \in Pick([1..c -> {0, 1, 2, 3, 4, 5, 6, 7}]) }
    : c \in (IF QCtrls(nm[1]) = -1 THEN Pick(2..5) ELSE {QCtrls(nm[1])}) } : z \in {1} }
  : nm \in Pick(NameBag) }
\* control values above 1 mean: as in term t, so that the gate acts
Norm1(ins, t) == [ins EXCEPT !.cs = [i \in DOMAIN @ |-> IF @[i] < 2 THEN @[i] ELSE IF ins.q[i] \in t.s THEN 1 ELSE 0]]
Do(ins) ==
  LET c == Len(ins.cs)
      P == {ins.q[i] : i \in {j \in 1..c : ins.cs[j] = 1}}
      Q == {ins.q[i] : i \in {j \in 1..c : ins.cs[j] = 0}}
      base == QBase(ins.name) IN
  IF base = "swap" THEN
    LET x == ins.q[c + 1]  y == ins.q[c + 2] IN
    [ts |-> [i \in 1..Len(terms) |-> [s |-> IF P \subseteq terms[i].s /\ Q \cap terms[i].s = {} THEN SwapSet(terms[i].s, x, y) ELSE terms[i].s, a |-> terms[i].a]],
     k |-> k, m |-> m]
  ELSE LET g == GateMatrix(base, ins.x)
           r == Clean(Collect(Each1(g, ins.q[c + 1], P, Q, terms), << >>))
       IN Shrink(r, k + g.k, m + g.m)

\* the simulator evaluates Init only once: the register is drawn in the first step
Init ==
  /\ n = 0 /\ nc = 1 /\ goal = 0 /\ hot = {}
  /\ prog = << >> /\ terms = <<[s |-> {}, a |-> One]>> /\ k = 0 /\ m = 0 /\ dist = << >> /\ obs = << >> /\ closed = FALSE
Start ==
  /\ n = 0
  /\ \E w \in Pick(MinN..MaxN) : \E c \in Pick(0..(w - 1)) : \E d \in Pick(0..(w - 1)) : \E e \in Pick(0..(w - 1)) :
       n' = w /\ hot' = {0, w - 1, c, d, e}
  /\ nc' \in Pick(1..MaxC) /\ goal' \in Pick(Len0..Len1)
  /\ UNCHANGED <<prog, terms, k, m, dist, obs, closed>>
Grow ==
  /\ ~closed /\ Len(prog) < goal
  /\ \E raw \in Ins : \E ti \in Pick(1..Len(terms)) : LET ins == Norm1(raw, terms[ti]) IN
       \E r \in {Do(ins)} :
         IF Len(r.ts) <= MaxTerms /\ Bounded(r.ts) /\ r.k <= 14 /\ r.m <= 3
         THEN prog' = Append(prog, ins) /\ terms' = r.ts /\ k' = r.k /\ m' = r.m /\ goal' = goal
         ELSE goal' = goal - 1 /\ UNCHANGED <<prog, terms, k, m>>
  /\ UNCHANGED <<n, nc, hot, dist, obs, closed>>
\* measurement of the qubits Q[i] into the bits B[i], in that order
RECURSIVE Bits(_, _, _, _)
Bits(s, Q, B, c) == IF Q = << >> THEN c ELSE Bits(s, Tail(Q), Tail(B), [c EXCEPT ![Head(B) + 1] = IF Head(Q) \in s THEN 1 ELSE 0])
WeightOf(t) == LET w == Abs2(t.a) IN [p |-> w[1], q |-> w[2], k |-> k, m |-> m]
\* A Pauli string: the sets of qubits with an X, a Y and a Z.  P|s> = i^#Y (-1)^#(s in Y or Z) |s xor (X or Y)>.
Xor(a, b) == (a \ b) \cup (b \ a)
Phase8(P, s) == 2 * Cardinality(P.y) + 4 * Cardinality(s \cap (P.y \cup P.z))
RECURSIVE SumP(_, _)
SumP(P, i) == IF i = 0 THEN Zero
  ELSE LET f == Find(terms, Xor(terms[i].s, P.x \cup P.y)) IN
       IF f = {} THEN SumP(P, i - 1)
       ELSE Add(SumP(P, i - 1), Mul(Conj(terms[CHOOSE j \in f : TRUE].a), Mul(Omega(Phase8(P, terms[i].s)), terms[i].a)))
ExpectP(P) == [e |-> SumP(P, Len(terms)), k |-> k + k, m |-> m + m]
SubsetOf(W) == UNION {IF zz = 1 THEN {W} ELSE Pick(SUBSET W) : zz \in Pick(1..3)}
\* strings that connect two terms of the state (their expectation is seldom trivial) and diagonal ones
Strings == UNION { UNION { UNION {
     { [x |-> d \ yy, y |-> yy \cap d, z |-> IF far = 1 THEN (0..(n - 1)) \ d ELSE zz \ d] : zz \in SubsetOf(hot), far \in Pick(1..3) }
     : yy \in Pick(SUBSET d) } : d \in {Xor(terms[i].s, terms[j].s)} } : i \in Pick(1..Len(terms)), j \in Pick(1..Len(terms)) }
RECURSIVE StringList(_)
StringList(t) == IF t = 0 THEN {<< >>}
  ELSE UNION { UNION { {Append(r, [p |-> P, c |-> c, v |-> ExpectP(P)]) : c \in Pick({-2, -1, 1, 2, 3})} : P \in Strings } : r \in StringList(t - 1) }
Observe ==
  /\ Mode = "expect" /\ ~closed /\ Len(prog) >= goal
  /\ closed' = TRUE
  /\ \E t \in Pick(1..4) : \E o \in StringList(t) : obs' = o
  /\ UNCHANGED <<n, nc, goal, prog, terms, k, m, hot, dist>>
RECURSIVE BitSeq(_)
BitSeq(w) == IF w = 0 THEN {<< >>} ELSE UNION { {<<b>> \o r : b \in Pick(0..(nc - 1))} : r \in BitSeq(w - 1) }
Close ==
  /\ Mode = "counts" /\ ~closed /\ Len(prog) >= goal
  /\ closed' = TRUE
  /\ \E w \in Pick(1..(IF nc < n THEN nc ELSE n)) : \E Q \in Chain(w, {}) : \E B \in BitSeq(w) :
       /\ prog' = prog \o [i \in 1..w |-> [op |-> "measure", q |-> <<Q[i]>>, b |-> B[i]]]
       /\ dist' = [i \in 1..Len(terms) |-> [c |-> Bits(terms[i].s, Q, B, [j \in 1..nc |-> 0]), w |-> WeightOf(terms[i])]]
  /\ UNCHANGED <<n, nc, goal, terms, k, m, hot, obs>>
Next == Start \/ (n > 0 /\ (Grow \/ Close \/ Observe))
\* the state stays normalised and its terms are distinct
RECURSIVE SumW(_, _)
SumW(ts, i) == IF i = 0 THEN <<0, 0>> ELSE LET r == SumW(ts, i - 1) w == Abs2(ts[i].a) IN <<r[1] + w[1], r[2] + w[2]>>
Sound == /\ \A i, j \in 1..Len(terms) : i # j => terms[i].s # terms[j].s
         /\ SumW(terms, Len(terms)) = <<Pow(2, k) * Pow(25, m), 0>>
Emitted == closed => PrintT("@@" \o ToJson([n |-> n, nc |-> nc, prog |-> prog, dist |-> dist, obs |-> obs]))
=============================================================================
