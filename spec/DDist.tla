------------------------------- MODULE DDist -------------------------------
(* States distributed over a power-of-two number of processes.

   Process r of np owns the amplitudes whose top log2(np) index bits are r.  The distribution is invisible in the values:
   a handle denotes the vector that results from putting the slices one after another in rank order, and every operation
   has the meaning it has on one process.  The records add what the caller of the distributed operations may choose: the
   communication scheme and the highest qubit it declares (any qubit not below the ones the operator touches). *)
EXTENDS DDEngine

CONSTANTS MinN

Touched(g) == {g.T[i] : i \in 1..Len(g.T)} \cup g.P \cup g.Q
Schemes == {"ring", "bcast"}

DNew ==
  \E d \in Pick(1..HV), o \in Pick({0, 1}) :
    LET v == Raw(Basis(nq, IF o = 0 THEN 0 ELSE Pow2(nq) - 1)) IN
    /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "dnew", d |-> d, n |-> nq, one |-> o, v |-> JV(v)])
DGate ==
  \E s \in Pick(GateSrc), d \in Pick(1..HV) :
    \E g \in AnyGate(nq), f \in Pick({0, 1}), c \in Pick(Schemes) :
      \E L \in Pick(Max(Touched(g))..(nq - 1)) :
        LET v == As(Apply(GM(g), g.T, g.P, g.Q, vec[s]), vec[s].u) IN
        /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
        /\ Emit([op |-> "dgate", d |-> d, s |-> s, g |-> JGate(g), f |-> f, top |-> L, sch |-> c, v |-> JV(v)])
DUnitary ==
  \E d \in Pick(1..HM) :
    \E t \in Pick(1..(IF nq < 3 THEN nq ELSE 3)), kind \in Pick({"rand", "unitary"}) :
      \E T \in Pick(InjSeqs(nq, t)) :
        \E y \in {IF kind = "rand" THEN RandMatrix(t) ELSE UnitaryMatrix(t, 3, Ident(t))} :
          LET x == Apply(AsGate(y), ShiftSeq(T, nq), {}, {}, Ident(nq)) IN
          /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
          /\ Emit([op |-> "mlarge", d |-> d, n |-> nq, T |-> T, y |-> y, x |-> x])
DMatGate ==
  \E d \in Pick(1..HM) :
    \E g \in AnyGate(nq), f \in Pick({0, 1}) :
      LET x == GateAsMatrix(g, nq) IN
      /\ SetM(d, x) /\ UNCHANGED <<nq, vec>>
      /\ Emit([op |-> "mgate", d |-> d, n |-> nq, g |-> JGate(g), f |-> f, x |-> x])
\* the lowest L such that the operator is the identity above qubit L
Above(x, L) == LET D == Pow2(nq)  H == Pow2(L + 1) IN
  \A r \in 0..(D - 1), c \in 0..(D - 1) :
     IF (r \div H) # (c \div H) THEN x.a[r * D + c + 1] = Zero
     ELSE x.a[r * D + c + 1] = x.a[(r % H) * D + (c % H) + 1]
DApply ==
  \E p \in Pick({q \in MVPairs : MN(mat[q[1]]) = nq}), d \in Pick(1..HV), c \in Pick(Schemes) :
    \E L \in Pick({l \in Qubits(nq) : Above(mat[p[1]], l)}) :
      LET v == Raw(MVMul(mat[p[1]], vec[p[2]])) IN
      /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
      /\ Emit([op |-> "dapply", d |-> d, l |-> p[1], s |-> p[2], top |-> L, sch |-> c, v |-> JV(v)])
DAdd ==
  \E p \in Pick(VPairs), d \in Pick(1..HV) :
    LET v == Raw(VAdd(vec[p[1]], vec[p[2]])) IN
    /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "dadd", d |-> d, l |-> p[1], r |-> p[2], v |-> JV(v)])
DMeasure ==
  \E s \in Pick(Units), d \in Pick(1..HV) :
    \E q \in Pick(Qubits(nq)) :
      LET w == <<W(vec[s], LAMBDA i : Bit(i, q) = 0), W(vec[s], LAMBDA i : Bit(i, q) = 1)>> IN
      \E b \in Pick({x \in {0, 1} : ~ZeroW(w[x + 1])}) :
        LET v == As(Project(vec[s], q, b), "unit") IN
        /\ SetV(d, v) /\ UNCHANGED <<nq, mat>>
        /\ Emit([op |-> "dmeasure", d |-> d, s |-> s, q |-> q, b |-> b, w |-> w, v |-> JV(v)])
DQuery ==
  \E s \in Pick(Units) :
    \E q \in Pick(Qubits(nq)), kind \in Pick({"probs", "one", "look", "sample"}) :
      /\ UNCHANGED <<nq, vec, mat>>
      /\ Emit([op |-> "dquery", s |-> s, q |-> q, kind |-> kind,
               w |-> [j \in 1..Len(vec[s].a) |-> Abs2(vec[s].a[j])], v |-> JV(vec[s])])
DCollect ==
  \E K \in Pick(SUBSET LiveV \ {{}}), force \in Pick({0, 1}) :
    /\ vec' = [h \in 1..HV |-> IF h \in K THEN vec[h] ELSE Dead]
    /\ UNCHANGED <<nq, mat>>
    /\ Emit([op |-> "dgcv", keep |-> SetToSortSeq(K, <), force |-> force,
             vs |-> LET q == SetToSortSeq(K, <) IN [i \in 1..Len(q) |-> JV(vec[q[i]])]])

DFn(name) == CASE name = "dnew" -> DNew [] name = "dgate" -> DGate [] name = "mlarge" -> DUnitary [] name = "mgate" -> DMatGate
  [] name = "mmul" -> MatMul [] name = "dapply" -> DApply [] name = "dadd" -> DAdd [] name = "dmeasure" -> DMeasure
  [] name = "dquery" -> DQuery [] name = "dgcv" -> DCollect [] name = "gcm" -> CollectM
DAvail(name) == CASE name \in {"dnew", "mgate", "mlarge"} -> TRUE
  [] name = "dgate" -> GateSrc # {} [] name = "mmul" -> MPairs # {}
  [] name = "dapply" -> {q \in MVPairs : MN(mat[q[1]]) = nq} # {}
  [] name = "dadd" -> VPairs # {} [] name \in {"dmeasure", "dquery"} -> Units # {}
  [] name = "dgcv" -> LiveV # {} [] name = "gcm" -> LiveM # {}

DInit ==
  /\ nq \in MinN..MaxN
  /\ LET v == Raw(Basis(nq, 0)) IN
     /\ vec = [h \in 1..HV |-> IF h = 1 THEN v ELSE Dead]
     /\ mat = [h \in 1..HM |-> MDead]
     /\ trace = << [op |-> "dnew", d |-> 1, n |-> nq, one |-> 0, v |-> JV(v)] >>
DNext == /\ Len(trace) < Depth
         /\ \E i \in Pick({j \in 1..Len(OpSet) : DAvail(OpSet[j])}) : DFn(OpSet[i])
DEmitted == Len(trace) = Depth => PrintT("@@" \o ToJson([n |-> nq, t |-> trace]))
=============================================================================
