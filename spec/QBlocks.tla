------------------------------- MODULE QBlocks ------------------------------
(***************************************************************************)
(* Wide registers in superposition.  The register is partitioned into      *)
(* blocks of one to three qubits, scattered over it, each with its own     *)
(* classical bits and its own exact ensemble (Circuits): the joint state   *)
(* is their product.  Steps act within a block, on many qubits at once (a  *)
(* layer), exchange qubits of two blocks, or are controlled by qubits of   *)
(* other blocks that are in a basis state, so the partition stays valid    *)
(* and every block is exact however wide the register is.  The outcomes of *)
(* different blocks are independent.                                       *)
(***************************************************************************)
EXTENDS QCircuit, TLC
CONSTANTS MinN, MaxN, MaxJoined,
          Steps,      \* sequence of step kinds (repetition is weight)
          Mode        \* "counts", "expect" or "engine" (gates, and their inverses)
VARIABLES blk,        \* sequence of [q |-> its qubits, b |-> its bits, ens |-> its ensemble]
          obs
\* n: the width; goal: the steps left; one classical bit per qubit; regs, ens and phase of QCircuit are not used
bvars == <<n, regs, goal, prog, ens, phase, closed, blk, obs>>

RECURSIVE ChainB(_, _)
\* w distinct qubits outside SS, the ends of the register and close neighbours more often
ChainB(w, SS) == IF w = 0 THEN {<< >>}
  ELSE UNION { UNION { { <<q>> \o r : r \in ChainB(w - 1, SS \cup {q}) }
       : q \in LET near == ({0, n - 1} \cup {s + 1 : s \in SS}) \cap ((0..(n - 1)) \ SS) IN
               Pick(IF z = 1 /\ near # {} THEN near ELSE (0..(n - 1)) \ SS) } : z \in Pick(1..3) }
RECURSIVE Joined(_, _)
Joined(j, SS) == IF j = 0 THEN {<< >>}
  ELSE UNION { UNION { {<<T>> \o r : r \in Joined(j - 1, SS \cup {T[i] : i \in DOMAIN T})} : T \in ChainB(w, SS) } : w \in Pick({2, 3}) }
MkBlk(q, a, s) == [q |-> q, b |-> [i \in DOMAIN q |-> (a * q[i] + s) % n], ens |-> StartE(Len(q), Len(q))]
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
\* all blocks: the joined ones, then the other qubits one by one
Parts(js, a, s) ==
  LET used == UNION {{js[i][k] : k \in DOMAIN js[i]} : i \in DOMAIN js}
      rest == SetToSortSeq((0..(n - 1)) \ used, LAMBDA x, y : x < y)
  IN [i \in 1..Len(js) |-> MkBlk(js[i], a, s)] \o [i \in 1..Len(rest) |-> MkBlk(<<rest[i]>>, a, s)]
BInit ==
  /\ n = 0 /\ goal = 0 /\ blk = << >>
  /\ regs = << >> /\ prog = << >> /\ ens = << >> /\ phase = <<0, 0>> /\ closed = FALSE /\ obs = << >>
\* the register and its partition are drawn in two steps
Width == n = 0 /\ n' \in Pick(MinN..MaxN) /\ goal' \in Pick(Len0..Len1) /\ UNCHANGED <<regs, prog, ens, phase, closed, blk, obs>>
Layout ==
  /\ n > 0 /\ blk = << >>
  /\ \E jn \in Pick(1..MaxJoined) : \E js \in Joined(jn, {}) :
     \E a \in Pick({x \in {1, 2, 3, 5, 7, n - 1} : Gcd(x, n) = 1}) : \E s \in Pick(0..(n - 1)) : blk' = Parts(js, a, s)
  /\ UNCHANGED <<n, regs, goal, prog, ens, phase, closed, obs>>

\* an instruction of block b, and the same instruction on the whole register
StepIn(b, ins) == [b EXCEPT !.ens = StepE(ins, b.ens, <<Len(b.q)>>)]
Global(b, ins) ==
  LET i1 == [ins EXCEPT !.q = [j \in DOMAIN ins.q |-> b.q[ins.q[j] + 1]]]
      i2 == [i1 EXCEPT !.cond = IF ins.cond.kind = "bit" THEN [ins.cond EXCEPT !.i = b.b[ins.cond.i + 1]] ELSE ins.cond]
  IN IF ins.op = "measure" THEN [i2 EXCEPT !.b = b.b[ins.b + 1]] ELSE i2
FitsB(b) == Len(b.ens) <= MaxBranches /\ \A i \in 1..Len(b.ens) : b.ens[i].v.k <= 16 /\ b.ens[i].v.m <= 3 /\ CoefBound(b.ens[i].v, 3000)
CondsB(w) == UNION { IF d > CondP THEN {NoCond} ELSE { [kind |-> "bit", i |-> i, val |-> v] : i \in Pick(0..(w - 1)), v \in Pick({0, 1}) } : d \in Pick(1..10) }
LayerNames == {"h", "h", "x", "sx", "ry", "rx", "u", "s", "t", "z", "p", "sxdg", "y", "rz"}
Gate1(nm) == { [op |-> "gate", name |-> nm, x |-> ax, q |-> <<0>>, cs |-> << >>, cond |-> NoCond] : ax \in AngleSeqs(QAngles(nm)) }
LayerIns == UNION {Gate1(nm) : nm \in Pick(LayerNames \cap GateNames)} \cup {g \in Gate1("h") : RandomElement({0, 1}) = 1}
LocalIns(w) == UNION { IF z < 3 THEN GatesOn(w, CondsB(w))
                       ELSE { [g EXCEPT !.q = <<j>>] : g \in UNION {Gate1(nm) : nm \in Pick({"h", "ry", "sx", "u", "rx"} \cap GateNames)}, j \in Pick(0..(w - 1)) } : z \in Pick(1..4) }
DynIns(w) == UNION { IF z = 1 THEN { [op |-> "reset", q |-> <<j>>, cond |-> NoCond] : j \in Pick(0..(w - 1)) }
                     ELSE { [op |-> "measure", q |-> <<j>>, b |-> c, cond |-> cd] : j \in Pick(0..(w - 1)), c \in Pick(0..(w - 1)), cd \in CondsB(w) } : z \in Pick(1..3) }

Keep == UNCHANGED <<n, regs, ens, phase, closed, obs>>
Take(b2, p2) == blk' = b2 /\ prog' = p2 /\ goal' = goal - 1
Skip == goal' = goal - 1 /\ UNCHANGED <<blk, prog>>
\* the blocks worth acting on: joined ones mostly
Target == UNION { IF z = 1 THEN Pick(1..Len(blk)) ELSE Pick({i \in 1..Len(blk) : Len(blk[i].q) > 1}) : z \in Pick(1..4) }
Local(InsOf(_)) ==
  \E i \in Target : \E ins \in InsOf(Len(blk[i].q)) : \E nb \in {StepIn(blk[i], ins)} :
    IF FitsB(nb) THEN Take([blk EXCEPT ![i] = nb], Append(prog, Global(blk[i], ins))) ELSE Skip

\* a one-qubit gate on every qubit of W, in one direction or the other
Wires == UNION { CASE z = 1 -> {0..(n - 1)} [] z = 2 -> {{q \in 0..(n - 1) : q % 2 = 1}}
                   [] z = 3 -> {lo..hi : lo \in Pick(0..(n - 1)), hi \in Pick(0..(n - 1))}
                   [] OTHER -> {(0..(n - 1)) \ {x, y} : x \in Pick(0..(n - 1)), y \in Pick(0..(n - 1))} : z \in Pick(1..4) }
RECURSIVE OnSome(_, _, _, _)
OnSome(b, g, W, j) == IF j = 0 THEN b
  ELSE LET r == OnSome(b, g, W, j - 1) IN IF b.q[j] \in W THEN StepIn(r, [g EXCEPT !.q = <<j - 1>>]) ELSE r
Layer ==
  \E W \in Wires : \E g \in Pick(LayerIns) : \E up \in Pick({TRUE, FALSE}) :
    \E nb \in {[i \in 1..Len(blk) |-> OnSome(blk[i], g, W, Len(blk[i].q))]} :
      IF \A i \in 1..Len(nb) : FitsB(nb[i])
      THEN LET o == SetToSortSeq(W, LAMBDA x, y : IF up THEN x < y ELSE x > y) IN
           Take(nb, prog \o [i \in 1..Len(o) |-> [g EXCEPT !.q = <<o[i]>>]])
      ELSE Skip

\* two blocks exchange a qubit
SwapX ==
  \E i \in Target : \E j \in Pick((1..Len(blk)) \ {i}) : \E x \in Pick(1..Len(blk[i].q)) : \E y \in Pick(1..Len(blk[j].q)) :
    Take([blk EXCEPT ![i].q[x] = blk[j].q[y], ![j].q[y] = blk[i].q[x]],
         Append(prog, [op |-> "gate", name |-> "swap", x |-> << >>, q |-> <<blk[i].q[x], blk[j].q[y]>>, cs |-> << >>, cond |-> NoCond]))

\* blocks of one qubit in a basis state, and its value
BasisVal(b) == IF Len(b.q) = 1 /\ Len(b.ens) = 1 /\ \E j \in 1..2 : b.ens[1].v.a[j] = Zero
               THEN (IF b.ens[1].v.a[1] = Zero THEN 1 ELSE 0) ELSE -1
RECURSIVE TakeSome(_, _)
TakeSome(k, SS) == IF k = 0 \/ SS = {} THEN {<< >>} ELSE UNION { {<<i>> \o r : r \in TakeSome(k - 1, SS \ {i})} : i \in Pick(SS) }
\* a gate on block i under controls from other blocks; `miss` of the controls (0 or 1) is against its qubit
CtrlX ==
  \E known \in {{j \in 1..Len(blk) : BasisVal(blk[j]) # -1}} : \E i \in Target : \E ks \in Pick(1..12) : \E C \in TakeSome(ks, known \ {i}) :
    IF C = << >> THEN Skip ELSE
    \E miss \in Pick({0, 0, 1} \X {1, 2, 3}) : \E at \in Pick(1..Len(C)) : \E t \in Pick(0..(Len(blk[i].q) - 1)) :
    \E nm \in Pick({"mcx", "mcp"}) : \E g \in Gate1(IF nm = "mcx" THEN "x" ELSE "p") :
      LET cs == [c \in 1..Len(C) |-> IF miss[1] = 1 /\ c = at THEN 1 - BasisVal(blk[C[c]]) ELSE BasisVal(blk[C[c]])]
          nb == IF miss[1] = 1 THEN blk[i] ELSE StepIn(blk[i], [g EXCEPT !.q = <<t>>])
      IN IF FitsB(nb)
         THEN Take([blk EXCEPT ![i] = nb],
                   Append(prog, [op |-> "gate", name |-> nm, x |-> g.x, q |-> [c \in 1..(Len(C) + 1) |-> IF c <= Len(C) THEN blk[C[c]].q[1] ELSE blk[i].q[t + 1]],
                                 cs |-> cs, cond |-> NoCond]))
         ELSE Skip

BGrow ==
  /\ ~closed /\ goal > 0 /\ Keep
  /\ \E s \in Pick(DOMAIN Steps) : LET kind == Steps[s] IN
       CASE kind = "layer" -> Layer [] kind = "local" -> Local(LocalIns) [] kind = "dyn" -> Local(DynIns)
         [] kind = "swap" -> SwapX [] kind = "ctrl" -> CtrlX
\* every qubit is measured into its bit, in one order or the other, leaving out the blocks of `skip`
RECURSIVE MeasAll(_, _)
MeasAll(b, j) == IF j = 0 THEN b ELSE StepIn(MeasAll(b, j - 1), [op |-> "measure", q |-> <<j - 1>>, b |-> j - 1, cond |-> NoCond])
MeasOrder(b) == [j \in 1..Len(b.q) |-> [op |-> "measure", q |-> <<b.q[j]>>, b |-> b.b[j], cond |-> NoCond]]
BClose ==
  /\ Mode = "counts" /\ ~closed /\ closed' = TRUE
  /\ \E up \in Pick({TRUE, FALSE}) : \E nb \in {[i \in 1..Len(blk) |-> MeasAll(blk[i], Len(blk[i].q))]} :
       /\ blk' = nb
       /\ prog' = prog \o Concat([i \in 1..Len(blk) |-> MeasOrder(blk[IF up THEN i ELSE Len(blk) + 1 - i])])
  /\ UNCHANGED <<n, regs, goal, ens, phase, obs>>
\* a Pauli string as a product over some blocks, of strings with a non-zero expectation where there are any
StringsOn(b) == LET v == b.ens[1].v  ps == [1..Len(b.q) -> {"I", "X", "Y", "Z"}]
                    nz == {P \in ps : (\E j \in DOMAIN P : P[j] # "I") /\ Expect(P, v).e # Zero}
                IN IF ~DotFits(v) THEN {[j \in 1..Len(b.q) |-> "I"]} ELSE IF nz = {} THEN ps ELSE nz
RECURSIVE Term(_)
Term(B) == IF B = << >> THEN {<< >>}
  ELSE UNION { { <<[q |-> blk[Head(B)].q, p |-> P, v |-> Expect(P, blk[Head(B)].ens[1].v)]>> \o r : r \in Term(Tail(B)) }
       : P \in Pick(StringsOn(blk[Head(B)])) }
Supports == UNION { CASE z = 1 -> {[i \in 1..Len(blk) |-> i]}
                      [] z = 2 -> {SetToSeq({i \in 1..Len(blk) : Len(blk[i].q) > 1})}
                      [] OTHER -> UNION {TakeSome(c, 1..Len(blk)) : c \in Pick(1..6)} : z \in Pick(1..4) }
RECURSIVE TermList(_)
TermList(t) == IF t = 0 THEN {<< >>}
  ELSE UNION { UNION { {Append(r, [c |-> c, f |-> f]) : c \in Pick({-2, -1, 1, 2, 3})} : f \in UNION {Term(B) : B \in Supports} } : r \in TermList(t - 1) }
Observe ==
  /\ Mode = "expect" /\ ~closed /\ closed' = TRUE
  /\ \E t \in Pick(1..3) : \E o \in TermList(t) : obs' = o
  /\ UNCHANGED <<n, regs, goal, prog, ens, phase, blk>>
\* The canonical diagram: a node per level and per direction of the part of the state below that level; for
\* a product of blocks the number of directions is the product over the blocks that the level cuts.
RECURSIVE Place(_, _)
Place(i, T) == IF T = << >> THEN 0 ELSE (IF Bit(i, 0) = 1 THEN Pow2(Head(T)) ELSE 0) + Place(i \div 2, Tail(T))
Directions(b, level) ==
  LET up == SetToSeq({j \in 1..Len(b.q) : b.q[j] > level})  dn == SetToSeq({j \in 1..Len(b.q) : b.q[j] <= level})
      U == [i \in DOMAIN up |-> up[i] - 1]  D == [i \in DOMAIN dn |-> dn[i] - 1]
      v == b.ens[1].v
      Part(u) == [k |-> 0, m |-> 0, a |-> [d \in 1..Pow2(Len(D)) |-> v.a[Place(u, U) + Place(d - 1, D) + 1]]]
      nz == {u \in 0..(Pow2(Len(U)) - 1) : ~VIsZero(Part(u))}
  IN IF U = << >> \/ D = << >> THEN 1
     ELSE Cardinality({u \in nz : \A t \in nz : t < u => ~VParallel(Part(t), Part(u))})
RECURSIVE ProdOver(_, _)
ProdOver(BS, level) == IF BS = {} THEN 1 ELSE LET i == CHOOSE i \in BS : TRUE IN Directions(blk[i], level) * ProdOver(BS \ {i}, level)
RECURSIVE NodesUpTo(_)
NodesUpTo(level) == IF level < 0 THEN 0 ELSE ProdOver({i \in DOMAIN blk : Len(blk[i].q) > 1}, level) + NodesUpTo(level - 1)
Engine == Mode = "engine" /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<n, regs, goal, prog, ens, phase, blk, obs>>
There == EngThere(prog)
BackAgain == EngBack(prog)
Finish == goal = 0 /\ (BClose \/ Observe \/ Engine)
BNext == Width \/ Layout \/ (blk # << >> /\ (BGrow \/ Finish))
\* the blocks partition the qubits and the bits, and every block is normalised
Partition == blk # << >> => /\ UNION {{blk[i].q[j] : j \in DOMAIN blk[i].q} : i \in DOMAIN blk} = 0..(n - 1)
                               /\ UNION {{blk[i].b[j] : j \in DOMAIN blk[i].b} : i \in DOMAIN blk} = 0..(n - 1)
RECURSIVE SumEns(_, _, _)
\* the weights of an ensemble, brought to the scale k, m
SumEns(e, k, m) == IF e = << >> THEN <<0, 0>>
  ELSE LET w == Weight(Head(e))  r == SumEns(Tail(e), k, m)  f == Pow(2, k - w.k) * Pow(25, m - w.m) IN <<r[1] + w.p * f, r[2] + w.q * f>>
Whole(b) == LET ks == {b.ens[i].v.k : i \in 1..Len(b.ens)} ms == {b.ens[i].v.m : i \in 1..Len(b.ens)}
                k == CHOOSE x \in ks : \A y \in ks : y <= x   m == CHOOSE x \in ms : \A y \in ms : y <= x
            IN m > 2 \/ k > 14 \/ SumEns(b.ens, k, m) = <<Pow(2, k) * Pow(25, m), 0>>
AllWhole == closed => \A i \in DOMAIN blk : Whole(blk[i])
BEmitted == closed => PrintT("@@" \o ToJson([n |-> n, nc |-> n, prog |-> prog, obs |-> obs,
   eng |-> IF Mode = "engine" THEN [there |-> There, back |-> BackAgain, nodes |-> NodesUpTo(n - 1)] ELSE << >>,
   dist |-> IF Mode # "expect" THEN [i \in DOMAIN blk |-> [q |-> blk[i].q, b |-> blk[i].b, d |-> Dist((IF Mode = "engine" THEN MeasAll(blk[i], Len(blk[i].q)) ELSE blk[i]).ens)]] ELSE << >>]))
=============================================================================
