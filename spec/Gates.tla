-------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* The gate library: every gate as an exact matrix over Ring.              *)
(*                                                                         *)
(* An angle is a pair <<j, g>> and stands for j*pi/4 + g*atan(4/3).  A     *)
(* rotation parameter theta is given by its half: theta = 2*<<j, g>>.      *)
(* UnitPhase(<<j,g>>) is exp(i*<<j,g>>) = w^j * ((3+4i)/5)^g.              *)
(***************************************************************************)
EXTENDS Ring

GPow(g) == CASE g = 0 -> One
             [] g = 1 -> <<3, 0, 4, 0>>
             [] g = -1 -> <<3, 0, -4, 0>>
             [] g = 2 -> <<-7, 0, 24, 0>>
             [] g = -2 -> <<-7, 0, -24, 0>>
             [] g = 3 -> <<-117, 0, 44, 0>>
             [] g = -3 -> <<-117, 0, -44, 0>>
GAbs(g) == IF g < 0 THEN -g ELSE g

\* scalars [k, m, e]
S(k, m, e) == [k |-> k, m |-> m, e |-> e]
UnitPhase(x) == S(0, GAbs(x[2]), Mul(Omega(x[1]), GPow(x[2])))
SMul(s, t) == S(s.k + t.k, s.m + t.m, Mul(s.e, t.e))
SNeg(s) == S(s.k, s.m, Neg(s.e))
SConj(s) == S(s.k, s.m, Conj(s.e))
Cos(x) == LET u == UnitPhase(x) IN S(2, u.m, Add(u.e, Conj(u.e)))
Sin(x) == LET u == UnitPhase(x) IN S(2, u.m, Mul(Neg(Im), Add(u.e, Neg(Conj(u.e)))))
Sum2(x, y) == <<x[1] + y[1], x[2] + y[2]>>
NegA(x) == <<-x[1], -x[2]>>
S0 == S(0, 0, Zero)
S1 == S(0, 0, One)
SI == S(0, 0, Im)

\* gate from rows of scalars: common denominators
MatK(rows) == LET ks == {rows[i][j].k : i \in DOMAIN rows, j \in DOMAIN rows} IN CHOOSE x \in ks : \A y \in ks : y <= x
MatM(rows) == LET ms == {rows[i][j].m : i \in DOMAIN rows, j \in DOMAIN rows} IN CHOOSE x \in ms : \A y \in ms : y <= x
G(rows) == LET K == MatK(rows)  M == MatM(rows) IN
  [k |-> K, m |-> M,
   g |-> [i \in DOMAIN rows |-> [j \in DOMAIN rows |->
            Lift(rows[i][j].e, K - rows[i][j].k, M - rows[i][j].m)]]]
RawG(k, rows) == [k |-> k, m |-> 0, g |-> rows]

ONE1 == <<One, Zero>>
IGate == RawG(0, << <<One, Zero>>, <<Zero, One>> >>)
XGate == RawG(0, << <<Zero, One>>, <<One, Zero>> >>)
YGate == RawG(0, << <<Zero, Neg(Im)>>, <<Im, Zero>> >>)
ZGate == RawG(0, << <<One, Zero>>, <<Zero, MOne>> >>)
HGate == RawG(1, << <<One, One>>, <<One, MOne>> >>)
DiagG(e) == RawG(0, << <<One, Zero>>, <<Zero, e>> >>)
SXGate == RawG(2, << <<Add(One, Im), Add(One, Neg(Im))>>, <<Add(One, Neg(Im)), Add(One, Im)>> >>)
SXdgGate == RawG(2, << <<Add(One, Neg(Im)), Add(One, Im)>>, <<Add(One, Im), Add(One, Neg(Im))>> >>)
VGate == RawG(1, << <<One, Neg(Im)>>, <<Neg(Im), One>> >>)
VdgGate == RawG(1, << <<One, Im>>, <<Im, One>> >>)

RXg(x) == LET c == Cos(x)  s == SMul(SNeg(SI), Sin(x)) IN G(<< <<c, s>>, <<s, c>> >>)
RYg(x) == LET c == Cos(x)  s == Sin(x) IN G(<< <<c, SNeg(s)>>, <<s, c>> >>)
RZg(x) == G(<< <<UnitPhase(NegA(x)), S0>>, <<S0, UnitPhase(x)>> >>)
Pg(x)  == G(<< <<S1, S0>>, <<S0, UnitPhase(x)>> >>)
\* u(theta, phi, lam, gam), theta given by its half
Ug(th, ph, la, ga) ==
  G(<< <<SMul(UnitPhase(ga), Cos(th)), SNeg(SMul(UnitPhase(Sum2(la, ga)), Sin(th)))>>,
       <<SMul(UnitPhase(Sum2(ph, ga)), Sin(th)), SMul(UnitPhase(Sum2(Sum2(ph, la), ga)), Cos(th))>> >>)
Rg(th, ph) ==
  LET s == SMul(SNeg(SI), Sin(th)) IN
  G(<< <<Cos(th), SMul(s, UnitPhase(NegA(ph)))>>, <<SMul(s, UnitPhase(ph)), Cos(th)>> >>)

\* Two-qubit gates.  Row index = bit of T[1] + 2 * bit of T[2].
SwapG  == RawG(0, << <<One, Zero, Zero, Zero>>, <<Zero, Zero, One, Zero>>,
                     <<Zero, One, Zero, Zero>>, <<Zero, Zero, Zero, One>> >>)
ISwapG == RawG(0, << <<One, Zero, Zero, Zero>>, <<Zero, Zero, Im, Zero>>,
                     <<Zero, Im, Zero, Zero>>, <<Zero, Zero, Zero, One>> >>)
RXXg(x) == LET c == Cos(x)  s == SMul(SNeg(SI), Sin(x)) IN
  G(<< <<c, S0, S0, s>>, <<S0, c, s, S0>>, <<S0, s, c, S0>>, <<s, S0, S0, c>> >>)
RYYg(x) == LET c == Cos(x)  s == SMul(SNeg(SI), Sin(x)) IN
  G(<< <<c, S0, S0, SNeg(s)>>, <<S0, c, s, S0>>, <<S0, s, c, S0>>, <<SNeg(s), S0, S0, c>> >>)
RZZg(x) == LET e == UnitPhase(x)  f == UnitPhase(NegA(x)) IN
  G(<< <<f, S0, S0, S0>>, <<S0, e, S0, S0>>, <<S0, S0, e, S0>>, <<S0, S0, S0, f>> >>)
\* exp(-i theta/2 X (x) Z): Z acts on T[1] (least significant), X on T[2]  (Qiskit's RZX(q0, q1))
RZXg(x) == LET c == Cos(x)  s == SMul(SNeg(SI), Sin(x)) IN
  G(<< <<c, S0, s, S0>>, <<S0, c, S0, SNeg(s)>>, <<s, S0, c, S0>>, <<S0, SNeg(s), S0, c>> >>)

(***************************************************************************)
(* A gate expression: [name, x] with x the sequence of its angles.         *)
(***************************************************************************)
GateMatrix(name, x) ==
  CASE name = "I" -> IGate [] name = "X" -> XGate [] name = "Y" -> YGate [] name = "Z" -> ZGate
    [] name = "H" -> HGate [] name = "S" -> DiagG(Im) [] name = "Sdag" -> DiagG(Neg(Im))
    [] name = "T" -> DiagG(Omega(1)) [] name = "Tdag" -> DiagG(Omega(-1))
    [] name = "SX" -> SXGate [] name = "SXdag" -> SXdgGate
    [] name = "V" -> VGate [] name = "Vdag" -> VdgGate
    [] name = "rx" -> RXg(x[1]) [] name = "ry" -> RYg(x[1]) [] name = "rz" -> RZg(x[1])
    [] name = "p" -> Pg(x[1]) [] name = "u1" -> Pg(x[1])
    [] name = "u2" -> Ug(<<1, 0>>, x[1], x[2], <<0, 0>>)
    [] name = "u3" -> Ug(x[1], x[2], x[3], <<0, 0>>)
    [] name = "u" -> Ug(x[1], x[2], x[3], x[4])
    [] name = "r" -> Rg(x[1], x[2])
    [] name = "swap" -> SwapG [] name = "iswap" -> ISwapG
    [] name = "rxx" -> RXXg(x[1]) [] name = "ryy" -> RYYg(x[1])
    [] name = "rzz" -> RZZg(x[1]) [] name = "rzx" -> RZXg(x[1])

\* number of angles / of qubits of a gate name; which angles are half-angles is the driver's knowledge:
\* rx ry rz r[1] u2(none) u3[1] u[1] rxx ryy rzz rzx take 2*angle, all other parameters are plain phases.
NAngles(name) ==
  CASE name \in {"rx", "ry", "rz", "p", "u1", "rxx", "ryy", "rzz", "rzx"} -> 1
    [] name \in {"u2", "r"} -> 2 [] name = "u3" -> 3 [] name = "u" -> 4 [] OTHER -> 0
\* the inverse of a gate expression, as a sequence of gate expressions
InvGates(name, x) ==
  CASE name = "S" -> <<<<"Sdag", x>>>> [] name = "Sdag" -> <<<<"S", x>>>>
    [] name = "T" -> <<<<"Tdag", x>>>> [] name = "Tdag" -> <<<<"T", x>>>>
    [] name = "SX" -> <<<<"SXdag", x>>>> [] name = "SXdag" -> <<<<"SX", x>>>>
    [] name = "V" -> <<<<"Vdag", x>>>> [] name = "Vdag" -> <<<<"V", x>>>>
    [] name \in {"rx", "ry", "rz", "p", "u1", "rxx", "ryy", "rzz", "rzx"} -> <<<<name, <<NegA(x[1])>> >>>>
    [] name = "u2" -> <<<<"u3", <<<<-1, 0>>, NegA(x[2]), NegA(x[1])>> >>>>
    [] name = "u3" -> <<<<"u3", <<NegA(x[1]), NegA(x[3]), NegA(x[2])>> >>>>
    [] name = "u" -> <<<<"u", <<NegA(x[1]), NegA(x[3]), NegA(x[2]), NegA(x[4])>> >>>>
    [] name = "r" -> <<<<"r", <<NegA(x[1]), x[2]>> >>>>
    [] name = "iswap" -> <<<<name, x>>, <<name, x>>, <<name, x>>>>
    [] OTHER -> <<<<name, x>>>>
OneQ == {"I", "X", "Y", "Z", "H", "S", "Sdag", "T", "Tdag", "SX", "SXdag", "V", "Vdag",
         "rx", "ry", "rz", "p", "u1", "u2", "u3", "u", "r"}
TwoQ == {"swap", "iswap", "rxx", "ryy", "rzz", "rzx"}
CliffordOneQ == {"I", "X", "Y", "Z", "H", "S", "Sdag", "SX", "SXdag", "V", "Vdag"}
CliffordTwoQ == {"swap", "iswap"}
=============================================================================
