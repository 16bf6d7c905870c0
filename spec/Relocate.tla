------------------------------ MODULE Relocate ------------------------------
(* Moving qubits between positions while a circuit runs on several processes.

   Position p of the distributed register holds one qubit of the circuit; positions N-G..N-1 cost communication.  Before an
   instruction that touches a qubit which is not near, a scheme exchanges positions; map[l] is where qubit l now is.  The
   amplitudes are represented by what matters about them here: tape[p] is the sequence of instructions applied at position p
   since the register was prepared, so a prepared register is blank everywhere and exchanging positions exchanges tapes.

   Schemes: "v1" looks ahead for as many instructions as fit, lays the near qubits out in order and exchanges pairs one after
   another; "v2" exchanges the leaving near qubits with the arriving far qubits in one operator; "any" exchanges any two
   positions at any moment.  An instruction whose condition is false is skipped and does not advance the look-ahead counter. *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

CONSTANTS N, G, Scheme, Len0, Shots

VARIABLES prog,      \* the instructions: sequence of non-empty sets of qubits
          pc, count, \* next instruction; number of instructions executed (what the look-ahead starts from)
          shot, map, near, tape, want, phase
vars == <<prog, pc, count, shot, map, near, tape, want, phase>>

Q == 0..(N - 1)
Sorted(S) == SetToSortSeq(S, <)
Identity == [l \in Q |-> l]
Swapped(f, p, r) == [x \in Q |-> IF x = p THEN f[r] ELSE IF x = r THEN f[p] ELSE f[x]]
At(m, p) == CHOOSE l \in Q : m[l] = p

\* the qubits of the instructions from position c on, as many instructions as fit into k near positions
RECURSIVE Ahead(_, _, _)
Ahead(c, k, S) == IF c > Len(prog) \/ Cardinality(S \cup prog[c]) > k THEN S ELSE Ahead(c + 1, k, S \cup prog[c])

\* ---- v1: an ordered list of near qubits gets positions 0, 1, ...; exchanges one after another in qubit order
V1Near == LET S == Ahead(count + 1, N - G, {})
              rest == Sorted(Q \ S)
          IN  S \cup {rest[i] : i \in 1..(N - G - Cardinality(S))}
V1Map(near1) == LET order == Sorted(near1) \o Sorted(Q \ near1) IN [l \in Q |-> (CHOOSE i \in 1..N : order[i] = l) - 1]
RECURSIVE V1Go(_, _, _, _)
V1Go(goal, l, m, t) ==
  IF l = N THEN <<m, t>>
  ELSE IF goal[l] = m[l] THEN V1Go(goal, l + 1, m, t)
  ELSE LET a == m[l]  b == goal[l]  other == At(m, b)
       IN  V1Go(goal, l + 1, [m EXCEPT ![other] = a, ![l] = b], Swapped(t, a, b))

\* ---- v2: leaving and arriving qubits are paired in order and exchanged by one operator
V2Near == LET S == Ahead(count + 1, N - G, {})
          IN  {X \in SUBSET Q : Cardinality(X) = N - G /\ S \subseteq X}
RECURSIVE V2Go(_, _, _, _, _)
V2Go(out, in, i, m, t) ==
  IF i > Len(out) THEN <<m, t>>
  ELSE LET a == m[out[i]]  b == m[in[i]]
       IN  V2Go(out, in, i + 1, [m EXCEPT ![out[i]] = b, ![in[i]] = a], Swapped(t, a, b))

Programs == [1..Len0 -> {S \in SUBSET Q : S # {} /\ Cardinality(S) <= 2}]

Init == /\ prog \in Programs
        /\ pc = 1 /\ count = 0 /\ shot = 1 /\ phase = "run"
        /\ map = Identity /\ near = 0..(N - G - 1)
        /\ tape = [p \in Q |-> <<>>] /\ want = [l \in Q |-> <<>>]

Far == \E l \in prog[pc] : map[l] \notin near
Execute(m, t) ==
  /\ tape' = [p \in Q |-> IF \E l \in prog[pc] : m[l] = p THEN Append(t[p], pc) ELSE t[p]]
  /\ want' = [l \in Q |-> IF l \in prog[pc] THEN Append(want[l], pc) ELSE want[l]]
  /\ map' = m /\ pc' = pc + 1 /\ count' = count + 1
  /\ UNCHANGED <<prog, shot, phase>>
Skip == /\ phase = "run" /\ pc <= Len0 /\ pc' = pc + 1
        /\ UNCHANGED <<prog, count, shot, map, near, tape, want, phase>>
Step == /\ phase = "run" /\ pc <= Len0
        /\ IF ~Far \/ Scheme = "any" THEN Execute(map, tape) /\ near' = near
           ELSE IF Scheme = "v1" THEN
                LET r == V1Go(V1Map(V1Near), 0, map, tape) IN Execute(r[1], r[2]) /\ near' = V1Near
           ELSE \E X \in V2Near :
                LET out == Sorted(near \ X)  in == Sorted((Q \ near) \ (Q \ X))
                    r == V2Go(out, in, 1, map, tape) IN Execute(r[1], r[2]) /\ near' = X
Move == /\ Scheme = "any" /\ phase = "run"
        /\ \E a, b \in Q : a < b /\ map' = [map EXCEPT ![At(map, a)] = b, ![At(map, b)] = a] /\ tape' = Swapped(tape, a, b)
        /\ UNCHANGED <<prog, pc, count, shot, near, want, phase>>
\* the next shot starts from a freshly prepared register; the map is kept
Again == /\ phase = "run" /\ pc > Len0 /\ shot < Shots
         /\ shot' = shot + 1 /\ pc' = 1 /\ count' = 0 /\ near' = 0..(N - G - 1)
         /\ tape' = [p \in Q |-> <<>>] /\ want' = [l \in Q |-> <<>>]
         /\ UNCHANGED <<prog, map, phase>>
Finish == /\ phase = "run" /\ pc > Len0 /\ shot = Shots
          /\ LET r == V1Go(Identity, 0, map, tape) IN map' = r[1] /\ tape' = r[2]
          /\ phase' = "done"
          /\ UNCHANGED <<prog, pc, count, shot, near, want>>
Next == Skip \/ Step \/ Move \/ Again \/ Finish

TypeOK == /\ map \in [Q -> Q] /\ \A a, b \in Q : a # b => map[a] # map[b]
          /\ near \subseteq Q /\ Cardinality(near) = N - G
\* every instruction was applied to its qubits, wherever they were
Tracked == \A l \in Q : tape[map[l]] = want[l]
Restored == phase = "done" => map = Identity /\ tape = want
=============================================================================
