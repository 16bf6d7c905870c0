------------------------------ MODULE Circuits ------------------------------
(***************************************************************************)
(* Quantum circuits as a user of the backend writes them: instructions     *)
(* with Qiskit names on named qubits and classical bits, conditions on     *)
(* classical bits or registers, and their step-by-step meaning.            *)
(*                                                                         *)
(* The meaning of a circuit is an ensemble: a sequence of branches         *)
(* [c, v], c the values of all classical bits and v an un-normalised       *)
(* exact state vector whose squared length is the probability of the       *)
(* branch.                                                                 *)
(*                                                                         *)
(* An instruction is a record                                              *)
(*   [op |-> "gate", name, x, q, cs, cond]   q: qubits, controls first,    *)
(*         cs: control state, one 0/1 per control                          *)
(*   [op |-> "unitary", y, q, cond]  y: exact matrix [k,m,g]               *)
(*   [op |-> "call", body, q, cond]  body: gate instructions on qubits     *)
(*         0..Len(q)-1, carried out on the qubits q                        *)
(*   [op |-> "measure", q, b, cond], [op |-> "reset", q, cond],            *)
(*   [op |-> "barrier", q, cond]                                           *)
(* where cond is [kind |-> "none"], [kind |-> "bit", i, val] or            *)
(* [kind |-> "reg", r, val]; r indexes the classical registers, whose      *)
(* sizes are in `regs`.                                                    *)
(***************************************************************************)
EXTENDS Gates, FiniteSets, SequencesExt

\* Qiskit name -> base gate, number of controls (-1: any), number of targets
QGates ==
  [ h |-> <<"H", 0, 1>>, id |-> <<"I", 0, 1>>, sdg |-> <<"Sdag", 0, 1>>, s |-> <<"S", 0, 1>>, sxdg |-> <<"SXdag", 0, 1>>,
    sx |-> <<"SX", 0, 1>>, tdg |-> <<"Tdag", 0, 1>>, t |-> <<"T", 0, 1>>, x |-> <<"X", 0, 1>>, y |-> <<"Y", 0, 1>>,
    z |-> <<"Z", 0, 1>>, cx |-> <<"X", 1, 1>>, cy |-> <<"Y", 1, 1>>, cz |-> <<"Z", 1, 1>>, csx |-> <<"SX", 1, 1>>,
    ccx |-> <<"X", 2, 1>>, c3x |-> <<"X", 3, 1>>, c4x |-> <<"X", 4, 1>>, mcx |-> <<"X", -1, 1>>,
    rx |-> <<"rx", 0, 1>>, ry |-> <<"ry", 0, 1>>, rz |-> <<"rz", 0, 1>>, p |-> <<"p", 0, 1>>, cp |-> <<"p", 1, 1>>,
    mcp |-> <<"p", -1, 1>>, cu1 |-> <<"u1", 1, 1>>, crx |-> <<"rx", 1, 1>>, cry |-> <<"ry", 1, 1>>, crz |-> <<"rz", 1, 1>>,
    r |-> <<"r", 0, 1>>, u |-> <<"u3", 0, 1>>, cu3 |-> <<"u3", 1, 1>>, cu |-> <<"u", 1, 1>>,
    swap |-> <<"swap", 0, 2>>, iswap |-> <<"iswap", 0, 2>>, cswap |-> <<"swap", 1, 2>>,
    rxx |-> <<"rxx", 0, 2>>, ryy |-> <<"ryy", 0, 2>>, rzz |-> <<"rzz", 0, 2>>, rzx |-> <<"rzx", 0, 2>> ]
QNames == DOMAIN QGates
QBase(nm) == QGates[nm][1]
QCtrls(nm) == QGates[nm][2]
QTargets(nm) == QGates[nm][3]
QMinWidth(nm) == (IF QCtrls(nm) = -1 THEN 2 ELSE QCtrls(nm)) + QTargets(nm)
QAngles(nm) == NAngles(QBase(nm))

NoCond == [kind |-> "none", i |-> 0, val |-> 0]
RECURSIVE RegStart(_, _)
RegStart(regs, r) == IF r = 1 THEN 0 ELSE RegStart(regs, r - 1) + regs[r - 1]
RECURSIVE NBits(_, _)
NBits(regs, r) == IF r = 0 THEN 0 ELSE NBits(regs, r - 1) + regs[r]
\* value held by register r (bit 0 least significant)
RECURSIVE BitsVal(_, _, _)
BitsVal(c, from, len) == IF len = 0 THEN 0 ELSE c[from + 1] + 2 * BitsVal(c, from + 1, len - 1)
Holds(cond, c, regs) ==
  CASE cond.kind = "none" -> TRUE
    [] cond.kind = "bit" -> c[cond.i + 1] = cond.val
    [] cond.kind = "reg" -> BitsVal(c, RegStart(regs, cond.i), regs[cond.i]) = cond.val

Proj(v, q, b) == Reduce([k |-> v.k, m |-> v.m,
  a |-> [j \in 1..Len(v.a) |-> IF Bit(j - 1, q) = b THEN v.a[j] ELSE Zero]])
FlipQ(v, q) == [k |-> v.k, m |-> v.m,
  a |-> [j \in 1..Len(v.a) |-> IF Bit(j - 1, q) = 1 THEN v.a[j - Pow2(q)] ELSE v.a[j + Pow2(q)]]]

\* gate instruction on a vector
RECURSIVE OnVec(_, _), OnBody(_, _, _)
OnBody(body, q, v) == IF body = << >> THEN v
  ELSE OnBody(Tail(body), q, OnVec([Head(body) EXCEPT !.q = [i \in DOMAIN Head(body).q |-> q[Head(body).q[i] + 1]]], v))
OnVec(ins, v) ==
  IF ins.op = "unitary" THEN Apply(ins.y, ins.q, {}, {}, v)
  ELSE IF ins.op = "call" THEN OnBody(ins.body, ins.q, v)
  ELSE LET nc == Len(ins.cs)
           P == {ins.q[i] : i \in {j \in 1..nc : ins.cs[j] = 1}}
           Q == {ins.q[i] : i \in {j \in 1..nc : ins.cs[j] = 0}}
       IN Apply(GateMatrix(QBase(ins.name), ins.x), SubSeq(ins.q, nc + 1, Len(ins.q)), P, Q, v)

Branch(c, v) == [c |-> c, v |-> v]
NonZero(s) == SelectSeq(s, LAMBDA b : ~VIsZero(b.v))
\* one instruction on one branch: a sequence of branches
StepB(ins, b, regs) ==
  IF ~Holds(ins.cond, b.c, regs) THEN <<b>>
  ELSE CASE ins.op \in {"gate", "unitary", "call"} -> <<Branch(b.c, OnVec(ins, b.v))>>
    [] ins.op = "measure" ->
         NonZero(<<Branch([b.c EXCEPT ![ins.b + 1] = 0], Proj(b.v, ins.q[1], 0)),
                   Branch([b.c EXCEPT ![ins.b + 1] = 1], Proj(b.v, ins.q[1], 1))>>)
    [] ins.op = "reset" ->
         NonZero(<<Branch(b.c, Proj(b.v, ins.q[1], 0)), Branch(b.c, FlipQ(Proj(b.v, ins.q[1], 1), ins.q[1]))>>)
    [] ins.op = "barrier" -> <<b>>
RECURSIVE StepE(_, _, _)
StepE(ins, ens, regs) ==
  IF ens = << >> THEN << >> ELSE StepB(ins, Head(ens), regs) \o StepE(ins, Tail(ens), regs)
StartE(n, nc) == <<Branch([i \in 1..nc |-> 0], Basis(n, 0))>>
RECURSIVE RunE(_, _, _)
RunE(prog, ens, regs) == IF prog = << >> THEN ens ELSE RunE(Tail(prog), StepE(Head(prog), ens, regs), regs)

\* exact weight of a branch, (p + q sqrt 2) / (2^k 25^m)
Weight(b) == Norm2(b.v)
Dist(ens) == [i \in 1..Len(ens) |-> [c |-> ens[i].c, w |-> Weight(ens[i])]]

CoefBound(v, b) == \A j \in 1..Len(v.a) : \A e \in 1..4 : v.a[j][e] <= b /\ v.a[j][e] >= -b
FitsV(v) == v.k + 5 * v.m <= 28 /\ CoefBound(v, 4000)
Fits(ens) == \A i \in 1..Len(ens) : FitsV(ens[i].v)

\* Pauli strings and their expectation values
PauliOn(P, v) == \* P: sequence over "I","X","Y","Z", qubit 0 first
  LET nb == Len(P)
      RECURSIVE Go(_, _)
      Go(i, w) == IF i = 0 THEN w
        ELSE LET w2 == IF P[i] = "I" THEN w ELSE Apply(GateMatrix(P[i], << >>), <<i - 1>>, {}, {}, w) IN Go(i - 1, w2)
  IN Go(nb, v)
RECURSIVE Dot(_, _, _)
Dot(a, b, j) == IF j = 0 THEN Zero ELSE Add(Dot(a, b, j - 1), Mul(Conj(a[j]), b[j]))
\* <v|P|v> = d / (2^((k+k2)/2) 5^(m+m2)); P v is not rescaled by a Pauli, but the representation may be reduced
Expect(P, v) == LET w == PauliOn(P, v) IN [e |-> Dot(v.a, w.a, Len(v.a)), k |-> v.k + w.k, m |-> v.m + w.m]
DotFits(v) == CoefBound(v, 900)
\* a program as the engine's gates, and the gates that undo it
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
EngGate(ins, g) ==
  LET c == Len(ins.cs)  on(b) == SelectSeq([j \in 1..c |-> j], LAMBDA j : ins.cs[j] = b) IN
  [name |-> g[1], x |-> g[2], T |-> SubSeq(ins.q, c + 1, Len(ins.q)),
   P |-> [i \in 1..Len(on(1)) |-> ins.q[on(1)[i]]], Q |-> [i \in 1..Len(on(0)) |-> ins.q[on(0)[i]]]]
EngThere(p) == [i \in DOMAIN p |-> EngGate(p[i], <<QBase(p[i].name), p[i].x>>)]
EngBack(p) == Concat([i \in DOMAIN p |-> LET ins == p[Len(p) + 1 - i]  iv == InvGates(QBase(ins.name), ins.x)
                                         IN [j \in DOMAIN iv |-> EngGate(ins, iv[j])]])
=============================================================================
