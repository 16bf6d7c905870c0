---------------------------- MODULE LookupTrace ----------------------------
(* Validates logs of concurrent look-ups recorded from the implementation.

   Abstractly the unique table is a function from values to nodes.  A look-up takes effect at one moment between its call
   and its return: if its value is stored it returns the stored node, otherwise its own candidate becomes the stored
   node.  A log (events in real-time order) is correct iff some placement of these moments explains every returned node;
   TLC searches for one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS File
Logs == ndJsonDeserialize(File)      \* each: [id, ev: sequence of [k: "call"/"ret", t, key, node]]

VARIABLES log, i, stored, pend
vars == <<log, i, stored, pend>>
Ev == Logs[log].ev

TInit == log \in 1..Len(Logs) /\ i = 1 /\ stored = <<>> /\ pend = <<>>

\* pend[t]: [key, node (candidate), val (0 while without effect)]
Callx == /\ i <= Len(Ev) /\ Ev[i].k = "call"
         /\ pend' = [t \in DOMAIN pend \cup {Ev[i].t} |->
                        IF t = Ev[i].t THEN [key |-> Ev[i].key, node |-> Ev[i].node, val |-> 0] ELSE pend[t]]
         /\ i' = i + 1 /\ UNCHANGED <<log, stored>>
Effect(t) == /\ t \in DOMAIN pend /\ pend[t].val = 0
             /\ IF pend[t].key \in DOMAIN stored
                THEN pend' = [pend EXCEPT ![t].val = stored[pend[t].key]] /\ UNCHANGED stored
                ELSE /\ \A k \in DOMAIN stored : stored[k] # pend[t].node
                     /\ pend' = [pend EXCEPT ![t].val = pend[t].node]
                     /\ stored' = [k \in DOMAIN stored \cup {pend[t].key} |->
                                     IF k = pend[t].key THEN pend[t].node ELSE stored[k]]
             /\ UNCHANGED <<log, i>>
\* effects are only needed directly before some return: any earlier moment leads to the same place
NextIsRet == i <= Len(Ev) /\ Ev[i].k = "ret"
Ret == /\ NextIsRet /\ Ev[i].t \in DOMAIN pend /\ pend[Ev[i].t].val = Ev[i].node
       /\ pend' = [t \in DOMAIN pend \ {Ev[i].t} |-> pend[t]]
       /\ i' = i + 1 /\ UNCHANGED <<log, stored>>
TNext == Callx \/ (NextIsRet /\ \E t \in DOMAIN pend : Effect(t)) \/ Ret

\* reported by the check: the logs that were explained to their end
Explained == IF i = Len(Ev) + 1 THEN PrintT("@@" \o ToJson([id |-> Logs[log].id])) ELSE TRUE
=============================================================================
