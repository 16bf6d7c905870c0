----------------------------- MODULE BlockApply -----------------------------
(* The two communication schemes of distributed operator application (mv_multiply_MPI: a ring within groups of processes;
   mv_multiply_MPI_bcast3: one broadcast per process), with messages and interleavings.

   Rank r must add up, exactly once each, the products of its row blocks (r, c) with the slices of all ranks c that the
   operator can connect it with.  The operator is the identity above qubit `top`, so block (r, c) can be non-zero only if
   r and c agree in the bits above it.  Slices are symbolic: the slice of rank c is the number c. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Size,       \* log2 of the number of ranks
          Local,      \* qubits of a slice
          Scheme      \* "ring" or "bcast"

NP == 2 ^ Size
Ranks == 0..(NP - 1)

VARIABLES top, pc, step, hold, got, box, sent, seat
vars == <<top, pc, step, hold, got, box, sent, seat>>
\* got[r]: slices (as <<column, slice>>) that rank r has multiplied; box[r]: messages in flight to r as <<from, tag, slice>>

Group == IF top < Local THEN 1 ELSE 2 ^ (top - Local + 1)      \* small_world_size
Offset(r) == r - (r % Group)
LeftOf(r) == ((r - 1 + NP) % Group) + Offset(r)
RightOf(r) == ((r + 1 + NP) % Group) + Offset(r)

BInit == /\ top \in 0..(Size + Local - 1)
         /\ pc = [r \in Ranks |-> "own"] /\ step = [r \in Ranks |-> 1] /\ hold = [r \in Ranks |-> r]
         /\ got = [r \in Ranks |-> <<>>] /\ box = [r \in Ranks |-> {}] /\ sent = [r \in Ranks |-> FALSE]
         /\ seat = [r \in Ranks |-> [i \in Ranks |-> "out"]]

Own(r) == /\ pc[r] = "own"
          /\ got' = [got EXCEPT ![r] = Append(@, <<r, r>>)]
          /\ pc' = [pc EXCEPT ![r] = IF top < Local THEN "done" ELSE IF Scheme = "ring" THEN "send" ELSE "root"]
          /\ UNCHANGED <<top, step, hold, box, sent, seat>>
\* ---- ring
Send(r) == /\ pc[r] = "send"
           /\ IF step[r] < Group
              THEN /\ box' = [box EXCEPT ![RightOf(r)] = @ \cup {<<r, step[r], hold[r]>>}]
                   /\ pc' = [pc EXCEPT ![r] = "recv"]
              ELSE pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED box
           /\ UNCHANGED <<top, step, hold, got, sent, seat>>
Recv(r) == /\ pc[r] = "recv"
           /\ \E m \in box[r] :
                /\ m[1] = LeftOf(r) /\ m[2] = step[r]
                /\ box' = [box EXCEPT ![r] = @ \ {m}]
                /\ LET col == ((r - step[r] + NP) % Group) + Offset(r) IN got' = [got EXCEPT ![r] = Append(@, <<col, m[3]>>)]
                /\ hold' = [hold EXCEPT ![r] = m[3]]
           /\ pc' = [pc EXCEPT ![r] = "wait"]
           /\ UNCHANGED <<top, step, sent, seat>>
\* the message sent in this step has been taken
Wait(r) == /\ pc[r] = "wait"
           /\ ~ \E m \in box[RightOf(r)] : m[1] = r /\ m[2] = step[r]
           /\ step' = [step EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "send"]
           /\ UNCHANGED <<top, hold, got, box, sent, seat>>
\* ---- broadcasts: rank i enters the i-th broadcast as its root; a receiver waits for the root, a root for everybody
Enter(r) == /\ pc[r] = "root"
            /\ IF step[r] > NP THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED seat
               ELSE /\ seat' = [seat EXCEPT ![step[r] - 1][r] = "in"] /\ pc' = [pc EXCEPT ![r] = "bcast"]
            /\ UNCHANGED <<top, step, hold, got, box, sent>>
Bcast(r) == /\ pc[r] = "bcast"
            /\ LET i == step[r] - 1 IN
               IF i = r THEN (\A x \in Ranks : seat[i][x] = "in") /\ UNCHANGED got
               ELSE seat[i][i] = "in" /\ got' = [got EXCEPT ![r] = Append(@, <<i, i>>)]
            /\ step' = [step EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "root"]
            /\ UNCHANGED <<top, hold, box, sent, seat>>

BNext == \E r \in Ranks : Own(r) \/ Send(r) \/ Recv(r) \/ Wait(r) \/ Enter(r) \/ Bcast(r)
Finished == \A r \in Ranks : pc[r] = "done"
BSpec == BInit /\ [][BNext]_vars /\ \A r \in Ranks : WF_vars(Own(r) \/ Send(r) \/ Recv(r) \/ Wait(r) \/ Enter(r) \/ Bcast(r))

Connected(r) == {c \in Ranks : c \div Group = r \div Group}
\* every product is with the slice the block belongs to, none twice
Right == \A r \in Ranks : /\ \A i \in 1..Len(got[r]) : got[r][i][1] = got[r][i][2]
                          /\ \A i, j \in 1..Len(got[r]) : i # j => got[r][i] # got[r][j]
\* at the end none is missing, and nothing is left in flight
Complete == Finished => \A r \in Ranks : /\ Connected(r) \subseteq {got[r][i][1] : i \in 1..Len(got[r])}
                                         /\ box[r] = {}
NoDeadlock == Finished \/ ENABLED BNext
Ends == <>Finished
=============================================================================
