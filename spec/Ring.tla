-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Exact amplitudes.                                                       *)
(*                                                                         *)
(* An element is a tuple <<a,b,c,d>> that stands for a + b*w + c*w^2 +     *)
(* d*w^3 in Z[w], w = exp(i*pi/4), so w^4 = -1, i = w^2 and                *)
(* sqrt(2) = w - w^3.  A vector (or matrix, flattened) is a record         *)
(*     [k, m, a]   with value   a[j] / (sqrt(2)^k * 5^m).                  *)
(* The 5's come from the generic angle atan(4/3), whose sine and cosine    *)
(* are 4/5 and 3/5.  All arithmetic is exact; TLC stops with an error on   *)
(* a 32-bit overflow, it never wraps.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Zero == <<0, 0, 0, 0>>
One  == <<1, 0, 0, 0>>
Im   == <<0, 0, 1, 0>>
MOne == <<-1, 0, 0, 0>>

Add(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
Neg(x)    == <<-x[1], -x[2], -x[3], -x[4]>>
Mul(x, y) ==
  IF x = Zero \/ y = Zero THEN Zero
  ELSE IF y = One THEN x
  ELSE IF x = One THEN y
  ELSE <<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
         x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
         x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
         x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]>>
Conj(x)   == <<x[1], -x[4], -x[3], -x[2]>>
Sqrt2(x)  == <<x[2] - x[4], x[1] + x[3], x[2] + x[4], x[3] - x[1]>>
Scale(n, x) == <<n*x[1], n*x[2], n*x[3], n*x[4]>>

\* w^j for any integer j
OmegaTab == << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>,
               <<-1,0,0,0>>, <<0,-1,0,0>>, <<0,0,-1,0>>, <<0,0,0,-1>> >>
Omega(j) == OmegaTab[(j % 8) + 1]

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>
Pow2(e) == Pow2Tab[e + 1]
Bit(i, t) == (i \div Pow2(t)) % 2

\* x * sqrt(2)^k
RECURSIVE MulSqrt2(_, _)
MulSqrt2(x, k) == IF x = Zero \/ k = 0 THEN x
                  ELSE IF k >= 2 THEN MulSqrt2(Scale(2, x), k - 2)
                  ELSE Sqrt2(x)
Lift(x, k, m) == IF x = Zero \/ (k = 0 /\ m = 0) THEN x ELSE Scale(Pow(5, m), MulSqrt2(x, k))

DivBySqrt2(x) == (x[1] - x[3]) % 2 = 0 /\ (x[2] - x[4]) % 2 = 0
HalfSqrt2(x)  == LET y == Sqrt2(x) IN <<y[1] \div 2, y[2] \div 2, y[3] \div 2, y[4] \div 2>>
DivBy5(x) == x[1] % 5 = 0 /\ x[2] % 5 = 0 /\ x[3] % 5 = 0 /\ x[4] % 5 = 0
Fifth(x)  == <<x[1] \div 5, x[2] \div 5, x[3] \div 5, x[4] \div 5>>

(***************************************************************************)
(* Canonical form of a record [k, m, a]: no common factor sqrt(2) or 5     *)
(* (with k = m = 0 for the zero vector).                                   *)
(***************************************************************************)
RECURSIVE Reduce(_)
Reduce(v) ==
  LET D == 1..Len(v.a) IN
  IF \A j \in D : v.a[j] = Zero THEN [k |-> 0, m |-> 0, a |-> v.a]
  ELSE IF v.k > 0 /\ \A j \in D : DivBySqrt2(v.a[j])
       THEN Reduce([k |-> v.k - 1, m |-> v.m, a |-> [j \in D |-> HalfSqrt2(v.a[j])]])
  ELSE IF v.m > 0 /\ \A j \in D : DivBy5(v.a[j])
       THEN Reduce([k |-> v.k, m |-> v.m - 1, a |-> [j \in D |-> Fifth(v.a[j])]])
  ELSE v

RECURSIVE SumUpTo(_, _)
SumUpTo(f, n) == IF n = 0 THEN Zero
                 ELSE IF n = 1 THEN f[1]
                 ELSE Add(SumUpTo(f, n - 1), f[n])

(***************************************************************************)
(* Vectors                                                                 *)
(***************************************************************************)
Basis(n, i)  == [k |-> 0, m |-> 0, a |-> [j \in 1..Pow2(n) |-> IF j = i + 1 THEN One ELSE Zero]]
VMax(x, y) == IF x >= y THEN x ELSE y
VAdd(u, v) == LET k == VMax(u.k, v.k)  m == VMax(u.m, v.m) IN
  Reduce([k |-> k, m |-> m,
          a |-> [j \in 1..Len(u.a) |-> Add(Lift(u.a[j], k - u.k, m - u.m),
                                          Lift(v.a[j], k - v.k, m - v.m))]])
\* scalar: [k, m, e]
VScale(s, v) == Reduce([k |-> v.k + s.k, m |-> v.m + s.m, a |-> [j \in 1..Len(v.a) |-> Mul(s.e, v.a[j])]])
VIsZero(v) == \A j \in 1..Len(v.a) : v.a[j] = Zero

\* equal up to a non-zero scalar
VParallel(u, v) ==
  \/ VIsZero(u) /\ VIsZero(v)
  \/ /\ ~VIsZero(u) /\ ~VIsZero(v)
     /\ LET p == CHOOSE j \in 1..Len(u.a) : u.a[j] # Zero /\ \A i \in 1..(j - 1) : u.a[i] = Zero
        IN  /\ v.a[p] # Zero
            /\ \A j \in 1..Len(u.a) : Mul(u.a[j], v.a[p]) = Mul(v.a[j], u.a[p])

(***************************************************************************)
(* A gate: [k, m, g] with g a sequence of 2^t rows of 2^t elements; it is  *)
(* applied to an ordered sequence T of t distinct qubits, least            *)
(* significant first, under positive controls P and negative controls Q.   *)
(***************************************************************************)
RECURSIVE Spread(_, _, _)
Spread(c, T, j) == IF j > Len(T) THEN 0
                   ELSE Bit(c, j - 1) * Pow2(T[j]) + Spread(c, T, j + 1)
RECURSIVE Gather(_, _, _)
Gather(i, T, j) == IF j > Len(T) THEN 0
                   ELSE Bit(i, T[j]) * Pow2(j - 1) + Gather(i, T, j + 1)
Controlled(i, P, Q) == (\A c \in P : Bit(i, c) = 1) /\ (\A c \in Q : Bit(i, c) = 0)

Apply(g, T, P, Q, v) ==
  LET dim == Pow2(Len(T))
      sp == [c \in 1..dim |-> Spread(c - 1, T, 1)]
      New(i) == IF Controlled(i, P, Q)
                THEN LET s == Gather(i, T, 1)
                         row == g.g[s + 1]
                         base == i - sp[s + 1]
                         F == [c \in 1..dim |-> Mul(row[c], v.a[base + sp[c] + 1])]
                     IN  SumUpTo(F, dim)
                ELSE Lift(v.a[i + 1], g.k, g.m)
  IN  Reduce([k |-> v.k + g.k, m |-> v.m + g.m, a |-> [j \in 1..Len(v.a) |-> New(j - 1)]])

(***************************************************************************)
(* Squared norms.  |x|^2 for x in Z[w] lies in Z[sqrt 2]: a pair <<p,q>>   *)
(* stands for p + q*sqrt(2).                                               *)
(***************************************************************************)
Abs2(x) == << x[1]*x[1] + x[2]*x[2] + x[3]*x[3] + x[4]*x[4],
              x[1]*x[2] + x[2]*x[3] + x[3]*x[4] - x[4]*x[1] >>
RECURSIVE SumAbs2(_, _)
SumAbs2(a, n) == IF n = 0 THEN <<0, 0>>
                 ELSE LET r == SumAbs2(a, n - 1)  e == a[n]
                      IN  IF e = Zero THEN r
                          ELSE LET s == Abs2(e) IN <<r[1] + s[1], r[2] + s[2]>>
\* [p, q, k, m] stands for (p + q*sqrt 2) / (2^k * 25^m)
Norm2(v) == LET s == SumAbs2(v.a, Len(v.a)) IN [p |-> s[1], q |-> s[2], k |-> v.k, m |-> v.m]
IsUnit(v) == LET s == SumAbs2(v.a, Len(v.a)) IN s[1] = Pow(2, v.k) * Pow(25, v.m) /\ s[2] = 0
=============================================================================
