------------------------------ MODULE Overlap ------------------------------
(* Jobs whose executions overlap in time.  The primitives run every job in a thread of its own, and all jobs share one
   engine: the tables of nodes, the collector (QddBackend._evaluate_circuit and merge_circuit in qdd/qdd_backend.py
   give it the node they are working on), the random number generator, the tables of bits the backend keeps while it
   evaluates a circuit.

   A job is a sequence of engine steps:
     map      the backend's table of bits becomes the job's
     seed     the generator is seeded for the job          unseed   it is seeded afresh
     gate     a new node is computed from the current one
     collect  nodes that can be reached neither from the current one nor from a kept one are freed, and their places
              are given to new nodes
     keep     the current node is protected (a merged operator)
     sample   random numbers are drawn
     read     the answer is taken from the current node

   Grain: how long a job has the engine for itself - "job" (what the backend does), "step" or "none" (in the middle of
   a step another one can happen: a gate reads its operand and stores its result in two steps).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS NJobs, Progs, Grain, MaxNodes,
          Emitting, Units, Length      \* emission of schedules: Length turns of Units jobs

Jobs == 1..NJobs
Places == 1..MaxNodes
VARIABLES prog, pc, cur, half,     \* of each job: its steps, the next one, its node, the operand it has read (0: none)
          holder,                  \* the job that has the engine (0: none)
          owner,                   \* of each place: the job whose node it is (0: free)
          kept, bits, rng, wrong,
          turns                    \* see below
vars == <<prog, pc, cur, half, holder, owner, kept, bits, rng, wrong>>

OInit == /\ prog \in [Jobs -> {Progs[i] : i \in DOMAIN Progs}] /\ pc = [j \in Jobs |-> 1] /\ cur = [j \in Jobs |-> 0] /\ half = [j \in Jobs |-> 0]
         /\ holder = 0 /\ owner = [p \in Places |-> 0] /\ kept = {} /\ bits = 0 /\ rng = 0 /\ wrong = {} /\ turns = << >>

Over(j) == pc[j] > Len(prog[j])
Step(j) == prog[j][pc[j]]
Next1(j) == pc' = [pc EXCEPT ![j] = @ + 1]
Free == {p \in Places : owner[p] = 0}
\* the engine is the job's
May(j) == /\ ~Over(j)
          /\ CASE Grain = "job" -> holder \in {0, j}
               [] Grain = "step" -> holder \in {0, j}
               [] OTHER -> TRUE
Hold(j, last) == holder' = IF Grain = "job" THEN IF pc[j] = Len(prog[j]) /\ last THEN 0 ELSE j
                           ELSE IF Grain = "step" /\ ~last THEN j ELSE 0
Blame(c, what) == wrong' = IF c THEN wrong ELSE wrong \cup {what}

Map(j) == /\ May(j) /\ Step(j) = "map" /\ bits' = j /\ Next1(j) /\ Hold(j, TRUE) /\ UNCHANGED <<prog, cur, half, owner, kept, rng, wrong>>
Seed(j) == /\ May(j) /\ Step(j) \in {"seed", "unseed"} /\ rng' = (IF Step(j) = "seed" THEN j ELSE 0) /\ Next1(j) /\ Hold(j, TRUE)
           /\ UNCHANGED <<prog, cur, half, owner, kept, bits, wrong>>
\* the operand is read (a job's first gate has none), then the result gets a free place
GateA(j) == /\ May(j) /\ Step(j) = "gate" /\ half[j] = 0 /\ Hold(j, FALSE)
            /\ half' = [half EXCEPT ![j] = IF cur[j] = 0 THEN MaxNodes + 1 ELSE cur[j]]
            /\ Blame(bits = j /\ (cur[j] = 0 \/ owner[cur[j]] = j), "operand")
            /\ UNCHANGED <<prog, pc, cur, owner, kept, bits, rng>>
GateB(j) == /\ May(j) /\ Step(j) = "gate" /\ half[j] # 0 /\ Free # {} /\ Hold(j, TRUE) /\ Next1(j)
            /\ Blame(half[j] > MaxNodes \/ owner[half[j]] = j, "result")
            /\ \E p \in {p \in Free : \A r \in Free : p <= r} :
                 cur' = [cur EXCEPT ![j] = p] /\ owner' = [owner EXCEPT ![p] = j]
            /\ half' = [half EXCEPT ![j] = 0]
            /\ UNCHANGED <<prog, kept, bits, rng>>
Collect(j) == /\ May(j) /\ Step(j) = "collect" /\ Next1(j) /\ Hold(j, TRUE)
              /\ owner' = [p \in Places |-> IF p \in kept \cup {cur[j]} THEN owner[p] ELSE 0]
              /\ UNCHANGED <<prog, cur, half, kept, bits, rng, wrong>>
Keep(j) == /\ May(j) /\ Step(j) = "keep" /\ kept' = kept \cup {cur[j]} /\ Next1(j) /\ Hold(j, TRUE)
           /\ Blame(owner[cur[j]] = j, "keep")
           /\ UNCHANGED <<prog, cur, half, owner, bits, rng>>
Sample(j) == /\ May(j) /\ Step(j) = "sample" /\ Next1(j) /\ Hold(j, TRUE)
             /\ Blame(rng = (IF "seed" \in {prog[j][i] : i \in 1..Len(prog[j])} THEN j ELSE 0), "sample")
             /\ UNCHANGED <<prog, cur, half, owner, kept, bits, rng>>
Read(j) == /\ May(j) /\ Step(j) = "read" /\ Next1(j) /\ Hold(j, TRUE)
           /\ Blame(owner[cur[j]] = j /\ bits = j, "read")
           /\ UNCHANGED <<prog, cur, half, owner, kept, bits, rng>>
ONext == (\E j \in Jobs : Map(j) \/ Seed(j) \/ GateA(j) \/ GateB(j) \/ Collect(j) \/ Keep(j) \/ Sample(j) \/ Read(j)) /\ UNCHANGED turns
OSpec == OInit /\ [][ONext]_<<vars, turns>> /\ WF_<<vars, turns>>(ONext)

Undisturbed == wrong = {}
KeptStays == \A p \in kept : owner[p] # 0
Exclusive == Grain = "job" => \A j \in Jobs : (pc[j] > 1 /\ ~Over(j)) => holder = j
Answered == <>(\A j \in Jobs : Over(j))

(* Schedules wished for on the real backend: whose turn it is at each call of the engine.  Runs of turns of one job
   are as likely short as long, so that the others get far or hardly anywhere meanwhile. *)
Runs == \E j \in RandomSubset(1, 1..Units) : \E k \in RandomSubset(1, {1, 1 + 1, 3, 5, 8, 13}) :
          turns' = turns \o [i \in 1..k |-> j]
ENext == /\ Len(turns) < Length /\ Runs /\ UNCHANGED vars
EDone == (Emitting /\ Len(turns) >= Length) => PrintT("@@" \o ToJson([turns |-> turns]))
=============================================================================
