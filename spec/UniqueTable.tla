---------------------------- MODULE UniqueTable ----------------------------
(* The unique table of one node type (include/table.hpp, CHashTable) under concurrent look-ups.

   A bucket is a lock and the most recently stored node; stored nodes are linked backwards by `prev` and forwards by
   `nxt`.  A look-up takes a node from the calling thread's own pool (getNode), fills it, locks the bucket, searches the
   chain, and either gives its node back to its own pool and returns the stored equal node, or links its node in and
   returns it.  Every node carries its content; nodes that were given back carry None (the code sets v to -2).

   Locking = FALSE removes the lock: the counterexamples this yields are schedules that an implementation has to survive
   (a correct one just waits where the model does not), and they show that the invariants below have teeth.
   Fine = TRUE interleaves single reads and writes of the chain, Fine = FALSE takes the steps between two hooks of the
   implementation at once, so that a behaviour is a schedule the driver can follow. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT, NK, NB, LEN, PreLen, Locking, Fine, Emitting

Threads == 1..NT
Keys == 1..NK
Bucket(k) == k % NB
Buckets == {Bucket(k) : k \in Keys}
None == 0
Null == <<0, 0>>

VARIABLES prog, pre,         \* keys each thread will look up; keys stored beforehand
          head, prev, nxt, cont,
          lock,              \* bucket -> thread holding it, or None
          trying,            \* threads that ask for a lock that is taken
          pool, fresh,       \* given-back nodes and number of nodes ever taken, by thread
          pc, mine, cur, seen,
          res,               \* results of the finished look-ups: <<key, node>>
          hist
mem == <<head, prev, nxt, cont>>
thr == <<pc, mine, cur, seen>>
vars == <<prog, pre, mem, lock, trying, pool, fresh, thr, res, hist>>

Nodes == DOMAIN cont
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Upd(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

PreOf(b, s) == SelectSeq([i \in 1..Len(s) |-> <<0, i>>], LAMBDA n : Bucket(s[n[2]]) = b)

UInit ==
    /\ prog \in [Threads -> [1..LEN -> Keys]]
    /\ pre \in {s \in UNION {[1..l -> Keys] : l \in 0..PreLen} : Distinct(s)}
    /\ cont = [n \in {<<0, i>> : i \in 1..Len(pre)} |-> pre[n[2]]]
    /\ head = [b \in Buckets |-> LET q == PreOf(b, pre) IN IF q = <<>> THEN Null ELSE q[Len(q)]]
    /\ prev = [n \in DOMAIN cont |-> LET q == PreOf(Bucket(cont[n]), pre) IN
                 LET i == CHOOSE i \in 1..Len(q) : q[i] = n IN IF i = 1 THEN Null ELSE q[i - 1]]
    /\ nxt = [n \in DOMAIN cont |-> LET q == PreOf(Bucket(cont[n]), pre) IN
                 LET i == CHOOSE i \in 1..Len(q) : q[i] = n IN IF i = Len(q) THEN Null ELSE q[i + 1]]
    /\ lock = [b \in Buckets |-> None] /\ trying = {}
    /\ pool = [t \in Threads |-> <<>>] /\ fresh = [t \in Threads |-> 0]
    /\ pc = [t \in Threads |-> "idle"] /\ mine = [t \in Threads |-> Null] /\ cur = [t \in Threads |-> Null]
    /\ seen = [t \in Threads |-> Null]
    /\ res = [t \in Threads |-> <<>>] /\ hist = <<>>

Key(t) == prog[t][Len(res[t]) + 1]
At(t, l) == pc[t] = l
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Log(t, e) == hist' = IF Emitting THEN Append(hist, <<t, e>>) ELSE hist
Give(t, n) == pool' = [pool EXCEPT ![t] = <<n>> \o @]

Call(t) ==      \* getNode and filling it in
    /\ At(t, "idle") /\ Len(res[t]) < LEN
    /\ LET n == IF pool[t] # <<>> THEN Head(pool[t]) ELSE <<t, fresh[t] + 1>> IN
       /\ mine' = [mine EXCEPT ![t] = n]
       /\ cont' = Upd(cont, n, Key(t))
       /\ prev' = Upd(prev, n, IF n \in DOMAIN prev THEN prev[n] ELSE Null)
       /\ nxt' = Upd(nxt, n, Null)
       /\ pool' = IF pool[t] # <<>> THEN [pool EXCEPT ![t] = Tail(@)] ELSE pool
       /\ fresh' = IF pool[t] # <<>> THEN fresh ELSE [fresh EXCEPT ![t] = @ + 1]
    /\ Go(t, "enter") /\ Log(t, "call")
    /\ UNCHANGED <<prog, pre, head, lock, trying, cur, seen, res>>

Try(t) ==       \* asks for a lock that another thread holds
    /\ At(t, "enter") /\ Locking /\ t \notin trying /\ lock[Bucket(Key(t))] # None
    /\ \A u \in trying : Bucket(Key(u)) # Bucket(Key(t))     \* who gets the lock first is left to the hardware
    /\ trying' = trying \cup {t} /\ Log(t, "try")
    /\ UNCHANGED <<prog, pre, mem, lock, pool, fresh, thr, res>>

Acquire(t) ==
    /\ At(t, "enter") /\ (Locking => lock[Bucket(Key(t))] = None)
    /\ \A u \in trying \ {t} : Bucket(Key(u)) # Bucket(Key(t))
    /\ lock' = [lock EXCEPT ![Bucket(Key(t))] = t]
    /\ trying' = trying \ {t}
    /\ Go(t, "locked") /\ Log(t, "locked")
    /\ UNCHANGED <<prog, pre, mem, pool, fresh, mine, cur, seen, res>>

RECURSIVE Find(_, _, _)
Find(n, k, fuel) == IF n = Null \/ fuel = 0 THEN Null ELSE IF cont[n] = k THEN n ELSE Find(prev[n], k, fuel - 1)

Search(t) ==    \* coarse: the whole walk
    /\ ~Fine /\ At(t, "locked")
    /\ LET n == Find(head[Bucket(Key(t))], Key(t), 20) IN
       /\ seen' = [seen EXCEPT ![t] = n]
       /\ Go(t, IF n = Null THEN "miss" ELSE "hit")
       /\ Log(t, IF n = Null THEN "miss" ELSE "hit")
    /\ UNCHANGED <<prog, pre, mem, lock, trying, pool, fresh, mine, cur, res>>

ReadHead(t) ==
    /\ Fine /\ At(t, "locked")
    /\ cur' = [cur EXCEPT ![t] = head[Bucket(Key(t))]] /\ Go(t, "scan")
    /\ UNCHANGED <<prog, pre, mem, lock, trying, pool, fresh, mine, seen, res, hist>>

Scan(t) ==
    /\ At(t, "scan")
    /\ IF cur[t] = Null THEN Go(t, "miss") /\ UNCHANGED <<cur, seen>>
       ELSE IF cont[cur[t]] = Key(t) THEN Go(t, "hit") /\ seen' = [seen EXCEPT ![t] = cur[t]] /\ UNCHANGED cur
       ELSE cur' = [cur EXCEPT ![t] = prev[cur[t]]] /\ UNCHANGED <<pc, seen>>
    /\ UNCHANGED <<prog, pre, mem, lock, trying, pool, fresh, mine, res, hist>>

Unlock(t) == lock' = [lock EXCEPT ![Bucket(Key(t))] = None]
Done(t, n) == /\ res' = [res EXCEPT ![t] = Append(@, <<Key(t), n>>)]
              /\ mine' = [mine EXCEPT ![t] = Null] /\ seen' = [seen EXCEPT ![t] = Null] /\ cur' = [cur EXCEPT ![t] = Null]

HitDone(t) ==   \* returnNode, unlock, return the stored node
    /\ At(t, "hit") /\ ~Fine
    /\ cont' = [cont EXCEPT ![mine[t]] = None] /\ prev' = [prev EXCEPT ![mine[t]] = Null]
    /\ Give(t, mine[t]) /\ Unlock(t) /\ Done(t, seen[t])
    /\ Go(t, "idle") /\ Log(t, "return")
    /\ UNCHANGED <<prog, pre, head, nxt, trying, fresh>>

HitGive(t) ==
    /\ At(t, "hit") /\ Fine
    /\ cont' = [cont EXCEPT ![mine[t]] = None] /\ prev' = [prev EXCEPT ![mine[t]] = Null]
    /\ Give(t, mine[t]) /\ mine' = [mine EXCEPT ![t] = Null] /\ Go(t, "unlock")
    /\ UNCHANGED <<prog, pre, head, nxt, lock, trying, fresh, cur, seen, res, hist>>

Store(t) ==     \* coarse: link and store
    /\ At(t, "miss") /\ ~Fine
    /\ LET b == Bucket(Key(t)) IN
       /\ prev' = [prev EXCEPT ![mine[t]] = head[b]]
       /\ nxt' = IF head[b] = Null THEN nxt ELSE [nxt EXCEPT ![head[b]] = mine[t]]
       /\ head' = [head EXCEPT ![b] = mine[t]]
    /\ seen' = [seen EXCEPT ![t] = mine[t]]
    /\ Go(t, "unlock") /\ Log(t, "inserted")
    /\ UNCHANGED <<prog, pre, cont, lock, trying, pool, fresh, mine, cur, res>>

LinkBack(t) ==
    /\ At(t, "miss") /\ Fine
    /\ prev' = [prev EXCEPT ![mine[t]] = head[Bucket(Key(t))]] /\ Go(t, "linked")
    /\ UNCHANGED <<prog, pre, head, nxt, cont, lock, trying, pool, fresh, mine, cur, seen, res, hist>>

LinkNext(t) ==
    /\ At(t, "linked")
    /\ nxt' = IF head[Bucket(Key(t))] = Null THEN nxt ELSE [nxt EXCEPT ![head[Bucket(Key(t))]] = mine[t]]
    /\ Go(t, "store")
    /\ UNCHANGED <<prog, pre, head, prev, cont, lock, trying, pool, fresh, mine, cur, seen, res, hist>>

StoreHead(t) ==
    /\ At(t, "store")
    /\ head' = [head EXCEPT ![Bucket(Key(t))] = mine[t]]
    /\ seen' = [seen EXCEPT ![t] = mine[t]] /\ Go(t, "unlock")
    /\ UNCHANGED <<prog, pre, prev, nxt, cont, lock, trying, pool, fresh, mine, cur, res, hist>>

Release(t) ==
    /\ At(t, "unlock")
    /\ Unlock(t) /\ Done(t, seen[t])
    /\ Go(t, "idle") /\ Log(t, "return")
    /\ UNCHANGED <<prog, pre, mem, trying, pool, fresh>>

Step(t) == \/ Call(t) \/ Try(t) \/ Acquire(t) \/ Search(t) \/ ReadHead(t) \/ Scan(t) \/ HitDone(t) \/ HitGive(t)
           \/ Store(t) \/ LinkBack(t) \/ LinkNext(t) \/ StoreHead(t) \/ Release(t)
UNext == \E t \in Threads : Step(t)
AllDone == \A t \in Threads : Len(res[t]) = LEN
Spec == UInit /\ [][UNext]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(Acquire(t))

-----------------------------------------------------------------------------
RECURSIVE Chain(_, _)
Chain(n, fuel) == IF n = Null \/ fuel = 0 THEN <<>> ELSE <<n>> \o Chain(prev[n], fuel - 1)
Stored(b) == Chain(head[b], 12)
InChain(n) == \E b \in Buckets : \E i \in 1..Len(Stored(b)) : Stored(b)[i] = n
Results == UNION {{res[t][i] : i \in 1..Len(res[t])} : t \in Threads}
InCS(t) == pc[t] \notin {"idle", "enter"}

Mutex == \A t, u \in Threads : t # u /\ InCS(t) /\ InCS(u) => Bucket(Key(t)) # Bucket(Key(u))
\* no value is stored twice, and a bucket holds its own values only
NoDuplicates == \A b \in Buckets : LET s == Stored(b) IN
                  /\ \A i, j \in 1..Len(s) : i # j => s[i] # s[j] /\ cont[s[i]] # cont[s[j]]
                  /\ \A i \in 1..Len(s) : cont[s[i]] # None /\ Bucket(cont[s[i]]) = b
\* a returned node is stored, stays stored and keeps its value
Kept == \A r \in Results : InChain(r[2]) /\ cont[r[2]] = r[1]
\* equal values, one node; different values, different nodes (with Kept this is linearizability of the look-ups: they
\* commute with each other except for who stores first)
Agree == \A r, s \in Results : (r[1] = s[1]) = (r[2] = s[2])
PreKept == \A i \in 1..Len(pre) : InChain(<<0, i>>) /\ cont[<<0, i>>] = pre[i]
PoolsSeparate == \A t \in Threads : \A i \in 1..Len(pool[t]) :
                   /\ ~InChain(pool[t][i]) /\ pool[t][i][1] = t
                   /\ \A j \in 1..Len(pool[t]) : i # j => pool[t][i] # pool[t][j]
                   /\ \A u \in Threads : mine[u] # pool[t][i]
Linked == \A b \in Buckets : (lock[b] = None) =>
            LET s == Stored(b) IN \A i \in 2..Len(s) : nxt[s[i]] = s[i - 1]
Correct == NoDuplicates /\ Kept /\ Agree /\ PreKept
Terminates == <>AllDone

Emit == IF Emitting /\ AllDone
        THEN PrintT("@@" \o ToJson([pre |-> pre, prog |-> prog, hist |-> hist, ok |-> Correct,
                                    res |-> [t \in Threads |-> [i \in 1..LEN |-> res[t][i][2]]]]))
        ELSE TRUE
EmitBad == IF Emitting /\ AllDone /\ ~Correct
           THEN PrintT("@@" \o ToJson([pre |-> pre, prog |-> prog, hist |-> hist, ok |-> FALSE,
                                       res |-> [t \in Threads |-> [i \in 1..LEN |-> res[t][i][2]]]]))
           ELSE TRUE
=============================================================================
