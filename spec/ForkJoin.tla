------------------------------ MODULE ForkJoin ------------------------------
(* The parallel recursion of the multi-threaded engine (mv_multiply2, vv_add2 in src/dd.cpp and my_ws in src/task.cpp).

   A task (a recursive call on one pair of nodes, its key) asks the memo table of the thread it runs on, and if the
   answer is not there spawns its subtasks as fibers, waits for them, combines their answers and records its own in a
   memo table.  Every thread has a queue of fibers, runs one at a time, never interrupts it, and steals when it has
   none.  A fiber that waited may be resumed by another thread.  A memo table has one slot; its key and answer are
   read and written in two steps.  The answer of key k is 10 + k.

   Refetch: after waiting, the fiber uses the memo table of the thread it is now on (FALSE: the one it started with).
   Switch: a fiber may be suspended in the middle of a memo table access (FALSE: only while waiting). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NThreads, Kids, KeyOf, Refetch     \* Kids[i]: subtasks of task i; KeyOf[i]: its key; task 1 is the root

Threads == 1..NThreads
Tasks == DOMAIN Kids
Val(k) == 10 + k

VARIABLES state,    \* of each task: none, ready, running, waiting, done
          pc, home, \* home: thread whose memo table it uses
          queue, run, slot, answer, on
vars == <<state, pc, home, queue, run, slot, answer, on>>

FInit == /\ state = [i \in Tasks |-> IF i = 1 THEN "running" ELSE "none"]
         /\ pc = [i \in Tasks |-> "find"] /\ home = [i \in Tasks |-> 1] /\ on = [i \in Tasks |-> 1]
         /\ queue = [t \in Threads |-> <<>>] /\ run = [t \in Threads |-> IF t = 1 THEN 1 ELSE 0]
         /\ slot = [t \in Threads |-> [key |-> 0, val |-> 0]]
         /\ answer = [i \in Tasks |-> 0]

Take(t, u, i, rest) ==
    /\ run' = [run EXCEPT ![t] = i] /\ queue' = [queue EXCEPT ![u] = rest]
    /\ state' = [state EXCEPT ![i] = "running"] /\ on' = [on EXCEPT ![i] = t]
    /\ home' = IF pc[i] = "find" \/ Refetch THEN [home EXCEPT ![i] = t] ELSE home
    /\ UNCHANGED <<pc, slot, answer>>
\* the own queue from one end, another thread's from the other
Pick(t) == /\ run[t] = 0
           /\ IF queue[t] # <<>> THEN Take(t, t, Head(queue[t]), Tail(queue[t]))
              ELSE \E u \in Threads \ {t} : queue[u] # <<>>
                     /\ Take(t, u, queue[u][Len(queue[u])], SubSeq(queue[u], 1, Len(queue[u]) - 1))

\* a finished task makes its waiting parent ready, on the queue of the thread the parent last ran on
Parent(i) == {p \in Tasks : \E j \in 1..Len(Kids[p]) : Kids[p][j] = i}
Finish(t, i, v) ==
    /\ answer' = [answer EXCEPT ![i] = v]
    /\ run' = [run EXCEPT ![t] = 0]
    /\ LET ps == {p \in Parent(i) : state[p] = "waiting" /\
                      \A j \in 1..Len(Kids[p]) : Kids[p][j] = i \/ state[Kids[p][j]] = "done"} IN
       /\ state' = [x \in Tasks |-> IF x = i THEN "done" ELSE IF x \in ps THEN "ready" ELSE state[x]]
       /\ queue' = [u \in Threads |-> IF \E p \in ps : on[p] = u THEN queue[u] \o <<CHOOSE p \in ps : on[p] = u>> ELSE queue[u]]

Step(t) == /\ run[t] # 0
           /\ LET i == run[t]
                  h == home[i]
                  k == KeyOf[i] IN
              CASE pc[i] = "find" ->
                     /\ pc' = [pc EXCEPT ![i] = IF slot[h].key = k THEN "read" ELSE IF Kids[i] = <<>> THEN "setkey" ELSE "spawn"]
                     /\ UNCHANGED <<state, home, queue, run, slot, answer, on>>
                [] pc[i] = "read" ->
                     /\ Finish(t, i, slot[h].val) /\ UNCHANGED <<pc, home, slot, on>>
                [] pc[i] = "spawn" ->
                     /\ queue' = [queue EXCEPT ![t] = @ \o Kids[i]]
                     /\ state' = [x \in Tasks |-> IF \E j \in 1..Len(Kids[i]) : Kids[i][j] = x THEN "ready" ELSE state[x]]
                     /\ pc' = [pc EXCEPT ![i] = "wait"]
                     /\ UNCHANGED <<home, run, slot, answer, on>>
                [] pc[i] = "wait" ->
                     IF \A j \in 1..Len(Kids[i]) : state[Kids[i][j]] = "done"
                     THEN pc' = [pc EXCEPT ![i] = "setkey"] /\ UNCHANGED <<state, home, queue, run, slot, answer, on>>
                     ELSE /\ state' = [state EXCEPT ![i] = "waiting"] /\ run' = [run EXCEPT ![t] = 0]
                          /\ UNCHANGED <<pc, home, queue, slot, answer, on>>
                [] pc[i] = "setkey" ->
                     /\ slot' = [slot EXCEPT ![h].key = k] /\ pc' = [pc EXCEPT ![i] = "setval"]
                     /\ UNCHANGED <<state, home, queue, run, answer, on>>
                [] pc[i] = "setval" ->
                     /\ slot' = [slot EXCEPT ![h].val = Val(k)]
                     /\ Finish(t, i, Val(k)) /\ UNCHANGED <<pc, home, on>>

FNext == \E t \in Threads : Pick(t) \/ Step(t)
FSpec == FInit /\ [][FNext]_vars /\ \A t \in Threads : WF_vars(Pick(t)) /\ WF_vars(Step(t))

RightAnswers == \A i \in Tasks : state[i] = "done" => answer[i] = Val(KeyOf[i])
\* between accesses every memo table holds a whole entry
WholeEntries == \A t \in Threads : (\A i \in Tasks : home[i] = t => pc[i] # "setval") =>
                  slot[t].key = 0 \/ slot[t].val = Val(slot[t].key)
OneOwner == \A t, u \in Threads : t # u /\ run[t] # 0 /\ run[u] # 0 =>
              /\ run[t] # run[u]
              /\ (pc[run[t]] \in {"find", "read", "setkey", "setval"} /\ pc[run[u]] \in {"find", "read", "setkey", "setval"}
                    => home[run[t]] # home[run[u]])
AllAnswered == <>(state[1] = "done")
=============================================================================
