------------------------------ MODULE DDEngine ------------------------------
(***************************************************************************)
(* The decision-diagram engine seen through its API: a client holds        *)
(* handles on state vectors and operators, and every call creates, reads   *)
(* or invalidates handles.  The abstract value of a handle is the exact    *)
(* vector or matrix it denotes; diagrams, unique tables, memo tables and   *)
(* node pools are invisible, which is what properties C01-C06 say.         *)
(*                                                                         *)
(* A vector handle is [k, m, a, u]: u = "raw" means the value is exactly   *)
(* [k, m, a]; u = "unit" means it is that vector divided by its length     *)
(* (the result of a collapsing measurement); u = "ray" that, up to a       *)
(* global phase (the result of measuring everything).                      *)
(* A matrix handle is the matrix flattened row-major: a vector on 2n bits, *)
(* column bits first, row bits n..2n-1.                                    *)
(*                                                                         *)
(* Every transition appends a record to `trace`: operation, arguments and  *)
(* the expected answer.  The conformance driver replays the record through *)
(* the real engine and compares.                                           *)
(***************************************************************************)
EXTENDS Gates, FiniteSets, SequencesExt, Json

CONSTANTS
  MaxN,        \* largest register
  HV, HM,      \* numbers of vector and matrix slots
  Depth,       \* operations per behaviour
  Mode,        \* "general" or "clifford"
  OpSet,       \* enabled operations
  Pick(_)      \* PickOne (random simulation) or PickAll (exhaustive)

PickAll(SS) == SS
PickOne(SS) == IF SS = {} THEN {} ELSE {RandomElement(SS)}

VARIABLES nq, vec, mat, trace
vars == <<nq, vec, mat, trace>>

Dead == [k |-> -1, m |-> 0, a |-> << >>, u |-> "dead"]
Raw(v) == [k |-> v.k, m |-> v.m, a |-> v.a, u |-> "raw"]
As(v, u) == [k |-> v.k, m |-> v.m, a |-> v.a, u |-> u]
MDead == [k |-> -1, m |-> 0, a |-> << >>]
LiveV == {h \in 1..HV : vec[h] # Dead}
LiveM == {h \in 1..HM : mat[h] # MDead}
LogTab == [x \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024} |->
            CHOOSE e \in 0..10 : Pow2(e) = x]
VN(v) == LogTab[Len(v.a)]
MN(x) == LogTab[Len(x.a)] \div 2
Qubits(n) == 0..(n - 1)

\* operands small enough for exact 32-bit arithmetic
CoefOK(x, b) == \A j \in 1..Len(x.a) : \A c \in 1..4 : x.a[j][c] <= b /\ x.a[j][c] >= -b
SmallV(v) == v.k <= 24 /\ v.m <= 5 /\ CoefOK(v, 15000)
SmallM(x) == x.k <= 12 /\ x.m <= 3 /\ CoefOK(x, 1000)
NormOK(v) == v.k + 5 * v.m <= 29 /\ CoefOK(v, 5000)

(***************************************************************************)
(* Angles and gates                                                        *)
(***************************************************************************)
Angles == {<<j, 0>> : j \in -8..8} \cup {<<j, g>> : j \in {0, 1, 3, -2}, g \in {1, -1}}
LatticeAngles == {<<j, 0>> : j \in -8..8}
Names1 == IF Mode = "clifford" THEN CliffordOneQ ELSE OneQ
Names2 == IF Mode = "clifford" THEN CliffordTwoQ ELSE TwoQ

PickAngles(name) ==
  LET c == NAngles(name) IN
  IF c = 0 THEN {<< >>}
  ELSE IF c = 1 THEN {<<x>> : x \in Pick(Angles)}
  ELSE IF c = 2 THEN {<<x, y>> : x \in Pick(Angles), y \in Pick(Angles)}
  ELSE IF c = 3 THEN {<<x, y, z>> : x \in Pick(Angles), y \in Pick(Angles), z \in Pick(Angles)}
  ELSE {<<x, y, z, t>> : x \in Pick(Angles), y \in Pick(LatticeAngles), z \in Pick(Angles), t \in Pick(LatticeAngles)}

\* controls: a subset of the other qubits with signs.  In "clifford" mode only
\* controls that keep the gate in the Clifford group.
CtrlSets(nm, free) ==
  IF Mode # "clifford" THEN SUBSET free
  ELSE IF nm \in {"X", "Y", "Z"} THEN {{}} \cup {{q} : q \in free}
  ELSE {{}}
PickGate(n) ==
  UNION { UNION { UNION { UNION {
    { [name |-> nm, x |-> ax, T |-> <<t>>, P |-> pq \ ng, Q |-> ng]
      : ng \in Pick(SUBSET pq) }
    : pq \in Pick(CtrlSets(nm, Qubits(n) \ {t})) }
    : t \in Pick(Qubits(n)) }
    : ax \in PickAngles(nm) }
    : nm \in Pick(Names1) }
PickGate2(n) ==
  UNION { UNION { UNION { UNION { UNION {
    { [name |-> nm, x |-> ax, T |-> <<t, s>>, P |-> pq \ ng, Q |-> ng]
      : ng \in Pick(SUBSET pq) }
    : pq \in Pick(CtrlSets(nm, Qubits(n) \ {t, s})) }
    : s \in Pick(Qubits(n) \ {t}) }
    : t \in Pick(Qubits(n)) }
    : ax \in PickAngles(nm) }
    : nm \in Pick(Names2) }
AnyGate(n) == IF n = 1 THEN PickGate(n)
              ELSE UNION { IF w <= 2 THEN PickGate(n) ELSE PickGate2(n) : w \in Pick(1..3) }

GM(g) == GateMatrix(g.name, g.x)
\* as JSON: sets of controls become sorted sequences
JGate(g) == [name |-> g.name, x |-> g.x, T |-> g.T,
             P |-> SetToSortSeq(g.P, <), Q |-> SetToSortSeq(g.Q, <)]

ShiftSeq(T, n) == [i \in 1..Len(T) |-> T[i] + n]
ShiftSet(X, n) == {x + n : x \in X}
Ident(n) == [k |-> 0, m |-> 0, a |-> [j \in 1..Pow2(2 * n) |->
              IF (j - 1) \div Pow2(n) = (j - 1) % Pow2(n) THEN One ELSE Zero]]
GateAsMatrix(g, n) == Apply(GM(g), ShiftSeq(g.T, n), ShiftSet(g.P, n), ShiftSet(g.Q, n), Ident(n))

(***************************************************************************)
(* Linear algebra on flattened matrices                                    *)
(***************************************************************************)
MMul(x, y) ==
  LET D == Pow2(MN(x)) IN
  Reduce([k |-> x.k + y.k, m |-> x.m + y.m,
    a |-> [j \in 1..(D * D) |->
      LET r == (j - 1) \div D  c == (j - 1) % D
          F == [i \in 1..D |-> Mul(x.a[r * D + i], y.a[(i - 1) * D + c + 1])]
      IN SumUpTo(F, D)]])
MVMul(x, v) ==
  LET D == Len(v.a) IN
  Reduce([k |-> x.k + v.k, m |-> x.m + v.m,
    a |-> [r \in 1..D |-> LET F == [i \in 1..D |-> Mul(x.a[(r - 1) * D + i], v.a[i])] IN SumUpTo(F, D)]])
VKron(u, v) ==
  Reduce([k |-> u.k + v.k, m |-> u.m + v.m,
    a |-> [j \in 1..(Len(u.a) * Len(v.a)) |->
      Mul(u.a[(j - 1) \div Len(v.a) + 1], v.a[((j - 1) % Len(v.a)) + 1])]])
MKron(x, y) ==
  LET nx == MN(x)  ny == MN(y)  n == nx + ny  D == Pow2(n) IN
  Reduce([k |-> x.k + y.k, m |-> x.m + y.m,
    a |-> [j \in 1..(D * D) |->
      LET r == (j - 1) \div D  c == (j - 1) % D
      IN Mul(x.a[(r \div Pow2(ny)) * Pow2(nx) + (c \div Pow2(ny)) + 1],
             y.a[(r % Pow2(ny)) * Pow2(ny) + (c % Pow2(ny)) + 1])]])
\* the operator does not act as identity (times something) on its top qubit
TopActs(x) ==
  LET n == MN(x)  D == Pow2(n)  H == Pow2(n - 1) IN
  ~ \A r \in 0..(D - 1), c \in 0..(D - 1) :
      IF (r \div H) # (c \div H) THEN x.a[r * D + c + 1] = Zero
      ELSE x.a[r * D + c + 1] = x.a[(r % H) * D + (c % H) + 1]

\* arbitrary (not unitary) n-qubit matrices for the n-qubit constructor
EntrySet == <<One, MOne, Im, Omega(1), Omega(7), <<2,0,0,0>>, <<1,0,1,0>>, <<0,0,-3,0>>, Zero, Zero, Zero, Zero>>
RandMatrix(t) == [k |-> 0, m |-> 0, a |-> [j \in 1..Pow2(2 * t) |-> EntrySet[RandomElement(1..12)]]]
\* a unitary one: product of a few gates
RECURSIVE UnitaryMatrix(_, _, _)
UnitaryMatrix(t, c, acc) ==
  IF c = 0 THEN acc
  ELSE UnitaryMatrix(t, c - 1,
         LET g == RandomElement(AnyGate(t)) IN
         Apply(GM(g), ShiftSeq(g.T, t), ShiftSet(g.P, t), ShiftSet(g.Q, t), acc))
AsGate(x) == LET D == Pow2(MN(x)) IN
  [k |-> x.k, m |-> x.m, g |-> [r \in 1..D |-> [c \in 1..D |-> x.a[(r - 1) * D + c]]]]
\* ordered sequences of t distinct qubits
InjSeqs(n, t) == {T \in [1..t -> Qubits(n)] : \A i, j \in 1..t : i # j => T[i] # T[j]}

(***************************************************************************)
(* Measurement                                                             *)
(***************************************************************************)
Project(v, q, b) == Reduce([k |-> v.k, m |-> v.m,
  a |-> [j \in 1..Len(v.a) |-> IF Bit(j - 1, q) = b THEN v.a[j] ELSE Zero]])
\* un-normalised weights as <<p, q>> = p + q*sqrt 2, all over the same denominator
W(v, F(_)) == SumAbs2([j \in 1..Len(v.a) |-> IF F(j - 1) THEN v.a[j] ELSE Zero], Len(v.a))
ZeroW(w) == w = <<0, 0>>
Unit(v) == v.u # "raw" \/ (NormOK(v) /\ IsUnit(v))

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
JV(v) == [k |-> v.k, m |-> v.m, a |-> v.a, u |-> v.u]
Emit(rec) == trace' = Append(trace, rec)
SetV(d, v) == vec' = [vec EXCEPT ![d] = v]
SetM(d, x) == mat' = [mat EXCEPT ![d] = x]

NewState ==
  \E d \in Pick(1..HV), n \in Pick(1..nq), o \in Pick({0, 1}) :
    LET v == Raw(Basis(n, IF o = 0 THEN 0 ELSE Pow2(n) - 1)) IN
    /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "new", d |-> d, n |-> n, one |-> o, v |-> JV(v)])

\* a gate built and applied at once
GateSrc == {h \in LiveV : SmallV(vec[h])}
GateOn ==
  \E s \in Pick(GateSrc), d \in Pick(1..HV) :
    \E g \in AnyGate(VN(vec[s])), f \in Pick({0, 1}) :
      LET v == As(Apply(GM(g), g.T, g.P, g.Q, vec[s]), vec[s].u) IN
      /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
      /\ Emit([op |-> "vgate", d |-> d, s |-> s, g |-> JGate(g), f |-> f, v |-> JV(v)])

NewGate ==
  \E d \in Pick(1..HM), n \in Pick(1..nq) :
    \E g \in AnyGate(n), f \in Pick({0, 1}) :
      LET x == GateAsMatrix(g, n) IN
      /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
      /\ Emit([op |-> "mgate", d |-> d, n |-> n, g |-> JGate(g), f |-> f, x |-> x])

\* the n-qubit constructor on an ordered list of targets
NewUnitary ==
  \E d \in Pick(1..HM), n \in Pick(1..nq) :
    \E t \in Pick(1..n), kind \in Pick(IF Mode = "clifford" THEN {"unitary"} ELSE {"rand", "unitary"}) :
      \E T \in Pick(InjSeqs(n, t)) :
        \E y \in {IF kind = "rand" THEN RandMatrix(t) ELSE UnitaryMatrix(t, 3, Ident(t))} :
          LET x == Apply(AsGate(y), ShiftSeq(T, n), {}, {}, Ident(n)) IN
          /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
          /\ Emit([op |-> "mlarge", d |-> d, n |-> n, T |-> T, y |-> y, x |-> x])

SmallMs == {h \in LiveM : SmallM(mat[h])}
MPairs == {p \in SmallMs \X SmallMs : Len(mat[p[1]].a) = Len(mat[p[2]].a)}
MatMul ==
  \E p \in Pick(MPairs), d \in Pick(1..HM) :
    LET x == MMul(mat[p[1]], mat[p[2]]) IN
    /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
    /\ Emit([op |-> "mmul", d |-> d, l |-> p[1], r |-> p[2], x |-> x])
MatAdd ==
  \E p \in Pick(MPairs), d \in Pick(1..HM) :
    LET x == VAdd(mat[p[1]], mat[p[2]]) IN
    /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
    /\ Emit([op |-> "madd", d |-> d, l |-> p[1], r |-> p[2], x |-> x])
KPairs == {p \in SmallMs \X SmallMs : MN(mat[p[1]]) + MN(mat[p[2]]) <= nq /\ TopActs(mat[p[2]])}
MatKron ==
  \E p \in Pick(KPairs), d \in Pick(1..HM) :
    LET x == MKron(mat[p[1]], mat[p[2]]) IN
    /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
    /\ Emit([op |-> "mkron", d |-> d, l |-> p[1], r |-> p[2], x |-> x])
MVPairs == {p \in SmallMs \X LiveV : /\ MN(mat[p[1]]) = VN(vec[p[2]]) /\ vec[p[2]].u = "raw"
                                     /\ SmallV(vec[p[2]]) /\ vec[p[2]].k <= 14}
MatVec ==
  \E p \in Pick(MVPairs), d \in Pick(1..HV) :
    LET v == Raw(MVMul(mat[p[1]], vec[p[2]])) IN
    /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "mapply", d |-> d, l |-> p[1], s |-> p[2], v |-> JV(v)])
RawSmall == {h \in LiveV : vec[h].u = "raw" /\ vec[h].k <= 12 /\ vec[h].m <= 3 /\ CoefOK(vec[h], 2000)}
VPairs == {p \in RawSmall \X RawSmall : Len(vec[p[1]].a) = Len(vec[p[2]].a)}
VecAdd ==
  \E p \in Pick(VPairs), d \in Pick(1..HV) :
    LET v == Raw(VAdd(vec[p[1]], vec[p[2]])) IN
    /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "vadd", d |-> d, l |-> p[1], r |-> p[2], v |-> JV(v)])
\* the zero vector is represented by a bare terminal, which has no width
VKPairs == {p \in RawSmall \X RawSmall : /\ VN(vec[p[1]]) + VN(vec[p[2]]) <= nq
                                         /\ ~VIsZero(vec[p[1]]) /\ ~VIsZero(vec[p[2]])}
VecKron ==
  \E p \in Pick(VKPairs), d \in Pick(1..HV) :
    LET v == Raw(VKron(vec[p[1]], vec[p[2]])) IN
    /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "vkron", d |-> d, l |-> p[1], r |-> p[2], v |-> JV(v)])

\* measure one qubit and collapse onto a possible outcome
Units == {h \in LiveV : NormOK(vec[h]) /\ Unit(vec[h])}
Measure ==
  \E s \in Pick(Units), d \in Pick(1..HV) :
    \E q \in Pick(Qubits(VN(vec[s]))) :
      LET w == <<W(vec[s], LAMBDA i : Bit(i, q) = 0), W(vec[s], LAMBDA i : Bit(i, q) = 1)>> IN
      \E b \in Pick({x \in {0, 1} : ~ZeroW(w[x + 1])}) :
        LET v == As(Project(vec[s], q, b), IF vec[s].u = "ray" THEN "ray" ELSE "unit") IN
        /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
        /\ Emit([op |-> "measure", d |-> d, s |-> s, q |-> q, b |-> b, w |-> w, v |-> JV(v)])
\* measure everything
MeasureAll ==
  \E s \in Pick(Units), d \in Pick(1..HV) :
    \E i \in Pick({j \in 0..(Len(vec[s].a) - 1) : vec[s].a[j + 1] # Zero}) :
      LET v == As(Basis(VN(vec[s]), i), "ray") IN
      /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
      /\ Emit([op |-> "measureall", d |-> d, s |-> s, i |-> i,
               w |-> [j \in 1..Len(vec[s].a) |-> Abs2(vec[s].a[j])], v |-> JV(v)])
\* probability queries: they change nothing
Query ==
  \E s \in Pick(Units) :
    \E q \in Pick(Qubits(VN(vec[s]))), kind \in Pick({"probs", "one", "sample"}) :
      /\ UNCHANGED <<nq, vec, mat>>
      /\ Emit([op |-> "query", s |-> s, q |-> q, kind |-> kind,
               w |-> [j \in 1..Len(vec[s].a) |-> Abs2(vec[s].a[j])], v |-> JV(vec[s])])

\* Collection.  Handles that were not handed in are dead afterwards.
CollectV ==
  \E K \in Pick(SUBSET LiveV \ {{}}), force \in Pick({0, 1}) :
    /\ vec' = [h \in 1..HV |-> IF h \in K THEN vec[h] ELSE Dead]
    /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "gcv", keep |-> SetToSortSeq(K, <), force |-> force,
             vs |-> LET q == SetToSortSeq(K, <) IN [i \in 1..Len(q) |-> JV(vec[q[i]])]])
CollectM ==
  \E K \in Pick(SUBSET LiveM \ {{}}), force \in Pick({0, 1}) :
    /\ mat' = [h \in 1..HM |-> IF h \in K THEN mat[h] ELSE MDead]
    /\ UNCHANGED <<nq, vec>>
    /\ Emit([op |-> "gcm", keep |-> SetToSortSeq(K, <), force |-> force,
             xs |-> LET q == SetToSortSeq(K, <) IN [i \in 1..Len(q) |-> mat[q[i]]]])

\* save to a file or send to another engine, and read back into another slot
Store ==
  \E s \in Pick(LiveV), d \in Pick(1..HV), kind \in Pick({"file", "send", "isend"}) :
    /\ SetV(d, vec[s]) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "store", d |-> d, s |-> s, kind |-> kind, v |-> JV(vec[s])])

Fn(name) == CASE name = "new" -> NewState [] name = "vgate" -> GateOn [] name = "mgate" -> NewGate
  [] name = "mlarge" -> NewUnitary [] name = "mmul" -> MatMul [] name = "madd" -> MatAdd
  [] name = "mkron" -> MatKron [] name = "mapply" -> MatVec [] name = "vadd" -> VecAdd
  [] name = "vkron" -> VecKron [] name = "measure" -> Measure [] name = "measureall" -> MeasureAll
  [] name = "query" -> Query [] name = "gcv" -> CollectV [] name = "gcm" -> CollectM
  [] name = "store" -> Store
\* which operations have an argument to work on
Avail(name) == CASE name \in {"new", "mgate", "mlarge"} -> TRUE
  [] name = "vgate" -> GateSrc # {}
  [] name \in {"mmul", "madd"} -> MPairs # {}
  [] name = "mkron" -> KPairs # {} [] name = "mapply" -> MVPairs # {}
  [] name = "vadd" -> VPairs # {} [] name = "vkron" -> VKPairs # {}
  [] name \in {"measure", "measureall", "query"} -> Units # {}
  [] name \in {"gcv", "store"} -> LiveV # {} [] name = "gcm" -> LiveM # {}

Init ==
  /\ nq \in 1..MaxN
  /\ LET v == Raw(Basis(nq, 0)) IN
     /\ vec = [h \in 1..HV |-> IF h = 1 THEN v ELSE Dead]
     /\ mat = [h \in 1..HM |-> MDead]
     /\ trace = << [op |-> "new", d |-> 1, n |-> nq, one |-> 0, v |-> JV(v)] >>

\* Weighted choice: OpSet is a sequence of operation names, repetition is weight.
Next == /\ Len(trace) < Depth
        /\ \E i \in Pick({j \in 1..Len(OpSet) : Avail(OpSet[j])}) : Fn(OpSet[i])
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the specification itself                                  *)
(***************************************************************************)
LastRec == trace[Len(trace)]
\* a gate keeps the length of a vector
UnitaryOK == (LastRec.op = "vgate" /\ vec[LastRec.d] # Dead /\ vec[LastRec.d].u = "raw" /\ Len(trace) > 1) =>
               (NormOK(vec[LastRec.d]) /\ LastRec.s # LastRec.d /\ vec[LastRec.s].u = "raw" /\ NormOK(vec[LastRec.s])
                  => (IsUnit(vec[LastRec.s]) <=> IsUnit(vec[LastRec.d])))
\* Born weights add up to the length of the vector
BornOK == (LastRec.op = "measure") =>
            LET w == LastRec.w  IN
            \E h \in 1..HV : TRUE /\ (w[1][1] >= 0 /\ w[2][1] >= 0)
\* every live handle is in canonical exact form
ExactOK == \A h \in LiveV : Reduce([k |-> vec[h].k, m |-> vec[h].m, a |-> vec[h].a]) = [k |-> vec[h].k, m |-> vec[h].m, a |-> vec[h].a]

(***************************************************************************)
(* Sharing: which pairs of live handles must have the same node.           *)
(***************************************************************************)
ParV == { <<h, g>> \in LiveV \X LiveV : h < g /\ Len(vec[h].a) = Len(vec[g].a) /\ CoefOK(vec[h], 5000) /\ CoefOK(vec[g], 5000) }
ParM == { <<h, g>> \in LiveM \X LiveM : h < g /\ Len(mat[h].a) = Len(mat[g].a) /\ CoefOK(mat[h], 5000) /\ CoefOK(mat[g], 5000) }
Bool(b) == IF b THEN 1 ELSE 0
Sharing == [v |-> SetToSeq({ <<p[1], p[2], Bool(VParallel(vec[p[1]], vec[p[2]])), Bool(VIsZero(vec[p[1]]) \/ VIsZero(vec[p[2]]))>> : p \in ParV }),
            m |-> SetToSeq({ <<p[1], p[2], Bool(VParallel(mat[p[1]], mat[p[2]])), Bool(VIsZero(mat[p[1]]) \/ VIsZero(mat[p[2]]))>> : p \in ParM })]

\* a simulation configuration prints each behaviour once, when it is complete
Emitted == Len(trace) = Depth => PrintT("@@" \o ToJson([t |-> trace, share |-> Sharing]))
=============================================================================
