------------------------------- MODULE QSums --------------------------------
(***************************************************************************)
(* Wide entangled registers.  An accumulator of a few qubits, scattered    *)
(* over the register, holds                                                *)
(*        f(x) = c0 + sum of co[i] * x[i]   modulo 2^(its size)            *)
(* of the other qubits x, the inputs, each of which has an exact local     *)
(* state of its own:                                                       *)
(*   |psi> = sum over x of prod loc[i](x[i]) w^th(f(x)) |x>|f(x)>.         *)
(* Gates keep that form: controlled additions (emitted as ripple chains of *)
(* multi-controlled X, their inverses, or through the Fourier basis), any  *)
(* gate on an input that is in no sum, diagonal gates and X on the others, *)
(* exchanges of qubits, phases of the accumulator, measurements in between *)
(* and additions that depend on their outcomes.  So outcomes are related   *)
(* exactly, the diagram of the state is known (few nodes per residue and   *)
(* level, at most), and subtracting everything leads back to a product.    *)
(***************************************************************************)
EXTENDS QCircuit, TLC
CONSTANTS MinN, MaxN, MaxAcc, MaxEarly,
          Steps,      \* sequence of step kinds (repetition is weight)
          Mode        \* "counts", "expect" or "engine"
VARIABLES acc,        \* the accumulator's qubits, least significant first
          co, loc,    \* coefficient and local state of every qubit (of an accumulator's qubit: 0 and |0>)
          c0, th,     \* constant; exponent of w for each value
          early,      \* measurements made in between, each the bit j of c + sum a[i] x[i]
          bmap,       \* the bit a qubit is measured into at the end: (bmap[1] * q + bmap[2]) mod n
          obs
svars == <<n, regs, goal, prog, ens, phase, closed, acc, co, loc, c0, th, early, bmap, obs>>
K == Len(acc)
M == Pow2(K)
Accs == {acc[j] : j \in DOMAIN acc}
Inputs == (0..(n - 1)) \ Accs
Zero1 == Basis(1, 0)

RECURSIVE Distinct(_, _)
Distinct(w, SS) == IF w = 0 THEN {<< >>}
  ELSE UNION { UNION { { <<q>> \o r : r \in Distinct(w - 1, SS \cup {q}) }
       : q \in LET near == ({0, n - 1} \cup {s + 1 : s \in SS}) \cap ((0..(n - 1)) \ SS) IN
               Pick(IF z = 1 /\ near # {} THEN near ELSE (0..(n - 1)) \ SS) } : z \in Pick(1..3) }
SInit ==
  /\ n = 0 /\ goal = 0 /\ acc = << >> /\ co = << >> /\ loc = << >> /\ c0 = 0 /\ th = << >> /\ early = << >> /\ bmap = <<1, 0>>
  /\ regs = << >> /\ prog = << >> /\ ens = << >> /\ phase = <<0, 0>> /\ closed = FALSE /\ obs = << >>
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Width == n = 0 /\ n' \in Pick(MinN..MaxN) /\ goal' \in Pick(Len0..Len1)
         /\ UNCHANGED <<regs, prog, ens, phase, closed, acc, co, loc, c0, th, early, bmap, obs>>
Layout ==
  /\ n > 0 /\ acc = << >>
  /\ \E w \in Pick(1..MaxAcc) : acc' \in Distinct(w, {}) /\ th' = [v \in 0..(Pow2(w) - 1) |-> 0]
  /\ IF Mode = "engine" THEN bmap' = <<1, 0>> ELSE \E am \in Pick({x \in {1, 3, 7, n - 1} : Gcd(x, n) = 1}) : \E s \in Pick(0..(n - 1)) : bmap' = <<am, s>>
  /\ co' = [q \in 0..(n - 1) |-> 0] /\ loc' = [q \in 0..(n - 1) |-> Zero1]
  /\ UNCHANGED <<n, regs, goal, prog, ens, phase, closed, c0, early, obs>>

Gate(nm, ax, q, cs) == [op |-> "gate", name |-> nm, x |-> ax, q |-> q, cs |-> cs, cond |-> NoCond]
Support(q) == {b \in {0, 1} : loc[q].a[b + 1] # Zero}
\* a measured qubit must stay diagonal
Frozen == UNION {{q \in 0..(n - 1) : early[i].a[q] # 0} : i \in DOMAIN early}
Keep == UNCHANGED <<n, regs, ens, phase, closed, obs, bmap>>
Step(p2) == prog' = p2 /\ goal' = goal - 1
Skip == goal' = goal - 1 /\ UNCHANGED <<prog, acc, co, loc, c0, th, early>>
FitsL(v) == v.k <= 16 /\ v.m <= 3 /\ CoefBound(v, 3000)
Single(nms) == UNION {{Gate(nm, ax, <<0>>, << >>) : ax \in AngleSeqs(QAngles(nm))} : nm \in Pick(nms)}
Turns == {"h", "ry", "rx", "sx", "sxdg", "u", "r"}
Diagonal == {"z", "s", "sdg", "t", "tdg", "p", "rz", "id"}

\* a gate on the qubits W, one after the other
Wires(SS) == UNION { CASE z < 3 -> {SS} [] z = 3 -> {{q \in SS : q % 2 = 1}}
                       [] z = 4 -> {{q \in SS : lo <= q /\ q <= hi} : lo \in Pick(0..(n - 1)), hi \in Pick(0..(n - 1))}
                       [] OTHER -> {{q} : q \in Pick(SS)} : z \in Pick(1..6) }
OnEach(g, W, up) == LET o == SetToSortSeq(W, LAMBDA x, y : IF up THEN x < y ELSE x > y) IN prog \o [i \in 1..Len(o) |-> [g EXCEPT !.q = <<o[i]>>]]
LocalOn(SS, nms) ==
  \E W \in Wires(SS) : \E g \in Single(nms) : \E up \in Pick({TRUE, FALSE}) :
  \E l2 \in {[q \in DOMAIN loc |-> IF q \in W THEN OnVec(g, loc[q]) ELSE loc[q]]} :
    IF W # {} /\ \A q \in W : FitsL(l2[q])
    THEN loc' = l2 /\ Step(OnEach(g, W, up)) /\ UNCHANGED <<acc, co, c0, th, early>>
    ELSE Skip
FreeInputs == {q \in Inputs : co[q] = 0} \ Frozen
Turn == LocalOn(FreeInputs, Turns)
Phases1 == LocalOn(Inputs, Diagonal)
\* X or Y on an input: its value is complemented
Flip ==
  \E W \in Wires(Inputs) : \E g \in Single({"x", "y"}) : \E up \in Pick({TRUE, FALSE}) :
    LET RECURSIVE Total(_, _)
        Total(f, SS) == IF SS = {} THEN 0 ELSE LET q == CHOOSE q \in SS : TRUE IN f[q] + Total(f, SS \ {q})
        NegIn(f, m2) == [q \in DOMAIN f |-> IF q \in W THEN (m2 - f[q]) % m2 ELSE f[q]] IN
    /\ loc' = [q \in DOMAIN loc |-> IF q \in W THEN OnVec(g, loc[q]) ELSE loc[q]]
    /\ co' = NegIn(co, M) /\ c0' = (c0 + Total(co, W)) % M
    /\ early' = [i \in DOMAIN early |-> [early[i] EXCEPT !.a = NegIn(@, Pow2(early[i].j + 1)), !.c = (@ + Total(early[i].a, W)) % Pow2(early[i].j + 1)]]
    /\ Step(OnEach(g, W, up)) /\ UNCHANGED <<acc, th>>
\* two qubits change places
Swap ==
  \E x \in Pick(UNION {IF z = 1 THEN Accs ELSE 0..(n - 1) : z \in Pick({1, 2})}) : \E y \in Pick((0..(n - 1)) \ {x}) :
    LET to(q) == IF q = x THEN y ELSE IF q = y THEN x ELSE q IN
    /\ acc' = [j \in DOMAIN acc |-> to(acc[j])]
    /\ co' = [q \in DOMAIN co |-> co[to(q)]] /\ loc' = [q \in DOMAIN loc |-> loc[to(q)]]
    /\ early' = [i \in DOMAIN early |-> [early[i] EXCEPT !.a = [q \in DOMAIN co |-> early[i].a[to(q)]]]]
    /\ Step(Append(prog, Gate("swap", << >>, <<x, y>>, << >>))) /\ UNCHANGED <<c0, th>>

\* ---- additions: C is the sequence of controlling qubits, cs their values
FlipGate(C, cs, t) == LET nm == CASE Len(C) = 0 -> "x" [] Len(C) = 1 -> "cx" [] Len(C) = 2 -> "ccx" [] Len(C) = 3 -> "c3x" [] Len(C) = 4 -> "c4x" [] OTHER -> "mcx"
                   IN Gate(nm, << >>, C \o <<t>>, cs)
TurnGate(C, cs, e, t) == Gate(IF Len(C) = 0 THEN "p" ELSE IF Len(C) = 1 THEN "cp" ELSE "mcp", <<<<e, 0>>>>, C \o <<t>>, cs)
\* increments of the accumulator from bit j on
Increment(j, C, cs) == [i \in 1..(K - j) |-> LET t == K - i IN
   FlipGate(C \o [b \in 1..(t - j) |-> acc[j + b]], cs \o [b \in 1..(t - j) |-> 1], acc[t + 1])]
RECURSIVE Ripple(_, _, _, _)
Ripple(j, d, C, cs) == IF d = 0 THEN << >> ELSE (IF d % 2 = 1 THEN Increment(j, C, cs) ELSE << >>) \o Ripple(j + 1, d \div 2, C, cs)
Rev(p) == [i \in DOMAIN p |-> p[Len(p) + 1 - i]]
RECURSIVE Fourier(_)
\* from bit t - 1 down
Fourier(t) == IF t = 0 THEN << >>
  ELSE <<Gate("h", << >>, <<acc[t]>>, << >>)>> \o [i \in 1..(t - 1) |-> LET s == t - i IN TurnGate(<<acc[s]>>, <<1>>, 4 \div Pow2(i - 0), acc[t])] \o Fourier(t - 1)
Undo(p) == [i \in DOMAIN p |-> LET g == p[Len(p) + 1 - i] IN IF g.name \in {"p", "cp", "mcp"} THEN [g EXCEPT !.x = <<NegA(g.x[1])>>] ELSE g]
\* the phase 2 pi d / 2^t on bit t - 1, in eighths of a turn
Draper(d, C, cs) == Fourier(K) \o [t \in 1..K |-> TurnGate(C, cs, (8 * (d % Pow2(t))) \div Pow2(t), acc[t])] \o Undo(Fourier(K))
Adder(style, d, C, cs) == CASE style = "fourier" /\ K <= 3 -> Draper(d, C, cs)
                            [] style = "inverse" -> Rev(Ripple(0, (M - d) % M, C, cs))
                            [] OTHER -> Ripple(0, d, C, cs)
Styles == {"ripple", "inverse", "fourier"}
\* controls that hold anyway: inputs in a basis state
Known == {q \in Inputs : Cardinality(Support(q)) = 1}
RECURSIVE TakeSome(_, _)
TakeSome(w, SS) == IF w = 0 \/ SS = {} THEN {<< >>} ELSE UNION { {<<i>> \o r : r \in TakeSome(w - 1, SS \ {i})} : i \in Pick(SS) }
Value(q) == CHOOSE b \in Support(q) : TRUE
Superposed == {q \in Inputs : Cardinality(Support(q)) = 2}
Plain == \A v \in DOMAIN th : th[v] = 0
Added(q, v, d) == \* the state after adding d where input q has the value v (the accumulator has no phases)
  /\ co' = [co EXCEPT ![q] = (@ + IF v = 1 THEN d ELSE M - d) % M]
  /\ c0' = (c0 + IF v = 1 THEN 0 ELSE d) % M
AddX == IF ~Plain THEN Skip ELSE
  \E style \in Pick(Styles) : \E d \in Pick(1..(M - 1)) :
  \E q \in Pick(UNION {IF z < 6 /\ Superposed # {} THEN Superposed ELSE Inputs : z \in Pick(1..6)}) :
  \E extra \in Pick({<<0>>, <<0>>, <<1>>, <<2>>}) : \E more \in TakeSome(extra[1], Known \ {q}) : \E v \in Pick({0, 1, 1}) :
    LET cs == <<v>> \o [i \in DOMAIN more |-> Value(more[i])] IN
    /\ Added(q, v, d) /\ Step(prog \o Adder(style, d, <<q>> \o more, cs)) /\ UNCHANGED <<acc, loc, th, early>>
\* a constant is added
AddC == \E style \in Pick(Styles) : \E d \in Pick(1..(M - 1)) :
  /\ c0' = (c0 + d) % M /\ th' = [v \in DOMAIN th |-> th[(v + M - d) % M]]
  /\ Step(prog \o Adder(style, d, << >>, << >>)) /\ UNCHANGED <<acc, co, loc, early>>
\* what an input contributes is taken away again
Back ==
  LET E == {q \in Inputs : co[q] # 0} IN
  IF E = {} \/ ~Plain THEN Skip ELSE
  \E q \in Pick(E) : \E style \in Pick(Styles) :
    /\ Added(q, 1, (M - co[q]) % M) /\ Step(prog \o Adder(style, (M - co[q]) % M, <<q>>, <<1>>)) /\ UNCHANGED <<acc, loc, th, early>>
\* phases of the accumulator, towards the end
EighthOf(g) == CASE g.name = "z" -> 4 [] g.name = "s" -> 2 [] g.name = "sdg" -> 6 [] g.name = "t" -> 1 [] g.name = "tdg" -> 7
                 [] g.name \in {"p", "cp", "cu1"} -> g.x[1][1] % 8 [] g.name = "cz" -> 4
AccPhase == IF goal > 6 THEN Skip ELSE
  \E two \in Pick(IF K > 1 THEN {TRUE, FALSE} ELSE {FALSE}) : \E j \in Pick(1..K) : \E i \in Pick(IF K > 1 THEN (1..K) \ {j} ELSE {1}) :
  \E nm \in Pick(IF two THEN {"cp", "cz", "cu1"} ELSE {"z", "s", "sdg", "t", "tdg", "p"}) : \E e \in Pick(-7..8) :
    LET g == Gate(nm, IF QAngles(nm) = 1 THEN <<<<e, 0>>>> ELSE << >>, IF two THEN <<acc[i], acc[j]>> ELSE <<acc[j]>>, IF two THEN <<1>> ELSE << >>) IN
    /\ th' = [v \in DOMAIN th |-> (th[v] + IF Bit(v, j - 1) = 1 /\ (two => Bit(v, i - 1) = 1) THEN EighthOf(g) ELSE 0) % 8]
    /\ Step(Append(prog, g)) /\ UNCHANGED <<acc, co, loc, c0, early>>

\* ---- measurements in between
MeasureIn ==
  IF Len(early) >= MaxEarly THEN Skip ELSE
  \E q \in Pick(UNION {IF z < 4 THEN Inputs ELSE Accs : z \in Pick(1..4)}) :
    LET j == IF q \in Accs THEN (CHOOSE j \in 1..K : acc[j] = q) - 1 ELSE 0
        md == Pow2(j + 1)
        e == IF q \in Accs THEN [j |-> j, c |-> c0 % md, a |-> [i \in DOMAIN co |-> co[i] % md]]
             ELSE [j |-> 0, c |-> 0, a |-> [i \in DOMAIN co |-> IF i = q THEN 1 ELSE 0]]
    IN /\ early' = Append(early, e)
       /\ Step(Append(prog, [op |-> "measure", q |-> <<q>>, b |-> n + Len(early), cond |-> NoCond])) /\ UNCHANGED <<acc, co, loc, c0, th>>
\* an addition that depends on the measured bit of one input
AddIf ==
  LET one == {i \in DOMAIN early : early[i].j = 0 /\ Cardinality({q \in DOMAIN co : early[i].a[q] # 0}) = 1} IN
  IF one = {} \/ ~Plain THEN Skip ELSE
  \E i \in Pick(one) : \E q \in {CHOOSE q \in DOMAIN co : early[i].a[q] # 0} : \E v \in Pick({0, 1}) : \E d \in Pick(1..(M - 1)) : \E style \in Pick(Styles) :
    /\ Added(q, (v + early[i].c) % 2, d)
    /\ LET p == Adder(style, d, << >>, << >>) IN Step(prog \o [x \in DOMAIN p |-> [p[x] EXCEPT !.cond = [kind |-> "bit", i |-> n + i - 1, val |-> v]]])
    /\ UNCHANGED <<acc, loc, th, early>>

SGrow ==
  /\ ~closed /\ goal > 0 /\ Keep
  /\ \E s \in Pick(DOMAIN Steps) : LET kind == Steps[s] IN
       CASE kind = "turn" -> Turn [] kind = "diag" -> Phases1 [] kind = "flip" -> Flip [] kind = "swap" -> Swap [] kind = "add" -> AddX
         [] kind = "addc" -> AddC [] kind = "back" -> Back [] kind = "phase" -> AccPhase [] kind = "measure" -> MeasureIn [] kind = "addif" -> AddIf

\* ---- the end of a behaviour
BitOf(q) == (bmap[1] * q + bmap[2]) % n
SClose ==
  /\ Mode = "counts" /\ closed' = TRUE
  /\ \E up \in Pick({TRUE, FALSE}) :
       prog' = prog \o [i \in 1..n |-> LET q == IF up THEN i - 1 ELSE n - i IN [op |-> "measure", q |-> <<q>>, b |-> BitOf(q), cond |-> NoCond]]
  /\ UNCHANGED <<n, regs, goal, ens, phase, acc, co, loc, c0, th, early, bmap, obs>>
\* Pauli strings: a factor on some inputs, and the parity relation of the lowest bit
Parity == [q |-> <<acc[1]>> \o SetToSeq({q \in Inputs : co[q] % 2 = 1}),
           v |-> [e |-> IF c0 % 2 = 0 THEN One ELSE MOne, k |-> 0, m |-> 0]]
Factor(q) == { [q |-> <<q>>, p |-> <<l>>, v |-> Expect(<<l>>, loc[q])] : l \in Pick(IF co[q] = 0 THEN {"X", "Y", "Z"} ELSE {"Z"}) }
RECURSIVE Factors(_)
Factors(Qs) == IF Qs = << >> THEN {<< >>} ELSE UNION { {<<f>> \o r : r \in Factors(Tail(Qs))} : f \in Factor(Head(Qs)) }
Sharp == {q \in Inputs : \E l \in (IF co[q] = 0 THEN {"X", "Y", "Z"} ELSE {"Z"}) : DotFits(loc[q]) /\ Expect(<<l>>, loc[q]).e # Zero}
STerm ==
  UNION { UNION { UNION { {r \o (IF par THEN <<[q |-> Parity.q, p |-> [i \in DOMAIN Parity.q |-> "Z"], v |-> Parity.v]>> ELSE << >>) : r \in Factors(Qs)}
          : Qs \in TakeSome(w, Sharp \ (IF par THEN {Parity.q[i] : i \in DOMAIN Parity.q} ELSE {})) } : w \in Pick(0..3) } : par \in Pick({TRUE, TRUE, FALSE}) }
RECURSIVE STerms(_)
STerms(t) == IF t = 0 THEN {<< >>}
  ELSE UNION { UNION { {Append(r, [c |-> c, f |-> f]) : c \in Pick({-2, -1, 1, 2, 3})} : f \in STerm } : r \in STerms(t - 1) }
SObserve ==
  /\ Mode = "expect" /\ closed' = TRUE
  /\ \E t \in Pick(1..3) : \E o \in STerms(t) : obs' = o
  /\ UNCHANGED <<n, regs, goal, prog, ens, phase, acc, co, loc, c0, th, early, bmap>>
SEngine == Mode = "engine" /\ closed' = TRUE /\ UNCHANGED <<n, regs, goal, prog, ens, phase, acc, co, loc, c0, th, early, bmap, obs>>
SNext == Width \/ Layout \/ (acc # << >> /\ (SGrow \/ (~closed /\ goal = 0 /\ (SClose \/ SObserve \/ SEngine))))

\* ---- the canonical diagram
RECURSIVE SumsOver(_, _)
SumsOver(Qs, from) == IF Qs = {} THEN from
  ELSE LET q == CHOOSE q \in Qs : TRUE IN SumsOver(Qs \ {q}, UNION {{(s + co[q] * b) % M : b \in Support(q)} : s \in from})
RECURSIVE BitsAt(_, _)
\* the bits of v at the positions js, as a number
BitsAt(v, js) == IF js = {} THEN 0 ELSE LET j == CHOOSE j \in js : TRUE IN Bit(v, j - 1) * Pow2(j - 1) + BitsAt(v, js \ {j})
\* what the lower part of the register looks like for a partial sum r and the upper bits b of the accumulator
Below(r, b, S2, U, D) ==
  LET ok == {s \in S2 : BitsAt((r + s) % M, U) = b}
      least == CHOOSE s \in ok : \A t \in ok : s <= t
  IN [s \in ok |-> <<BitsAt((r + s) % M, D), (th[(r + s) % M] - th[(r + least) % M]) % 8>>]
NodesAt(level) ==
  LET up == {q \in Inputs : q > level}  R == SumsOver(up, {c0})  S2 == SumsOver(Inputs \ up, {0})
      U == {j \in 1..K : acc[j] > level}  D == (1..K) \ U
  IN Cardinality(UNION {{Below(r, b, S2, U, D) : b \in {BitsAt((r + s) % M, U) : s \in S2}} : r \in R})
RECURSIVE AllNodes(_)
AllNodes(level) == IF level < 0 THEN 0 ELSE NodesAt(level) + AllNodes(level - 1)

\* ---- invariants and emission
Normed == acc # << >> => \A q \in Inputs : LET w == Norm2(loc[q]) IN w.k > 14 \/ w.m > 2 \/ (w.q = 0 /\ w.p = Pow(2, w.k) * Pow(25, w.m))
WellPlaced == acc # << >> => Cardinality(Accs) = K /\ \A q \in Accs : co[q] = 0 /\ loc[q] = Zero1
SmallDiagram == closed => \A l \in 0..(n - 1) : NodesAt(l) \in 1..(M * M)
Rel(bit, e) == [b |-> bit, a |-> [i \in 1..Cardinality({q \in Inputs : e.a[q] # 0}) |->
                    LET o == SetToSortSeq({q \in Inputs : e.a[q] # 0}, LAMBDA x, y : x < y) IN <<BitOf(o[i]), e.a[o[i]]>>], c |-> e.c, j |-> e.j]
Relations == [j \in 1..K |-> Rel(BitOf(acc[j]), [a |-> co, c |-> c0, j |-> j - 1])] \o [i \in DOMAIN early |-> Rel(n + i - 1, early[i])]
SEmitted == closed => PrintT("@@" \o ToJson([n |-> n, nc |-> n + Len(early), prog |-> prog, obs |-> obs,
   eng |-> IF Mode = "engine" THEN [there |-> EngThere(prog), back |-> EngBack(prog), nodes |-> AllNodes(n - 1)] ELSE << >>,
   rel |-> Relations,
   dist |-> LET o == SetToSeq(Inputs) IN [i \in 1..Len(o) |-> [q |-> <<o[i]>>, b |-> <<BitOf(o[i])>>,
              d |-> Dist(StepE([op |-> "measure", q |-> <<0>>, b |-> 0, cond |-> NoCond], <<Branch(<<0>>, loc[o[i]])>>, <<1>>))]]]))
=============================================================================
