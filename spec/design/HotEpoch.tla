------------------------------ MODULE HotEpoch ------------------------------
(***************************************************************************)
(* Three-epoch memory reclamation as the HOT trie uses it.  A thread       *)
(* enters a critical section by publishing the epoch it has read, picks up *)
(* a reference to the current node, may replace the node (the old one goes *)
(* to the free list of the thread's epoch) and leaves.  Entering a new     *)
(* epoch frees the thread's list of that epoch.  The global epoch advances *)
(* when no thread is seen in the previous one.                             *)
(* Recheck = FALSE is the protocol before the repair: the epoch may        *)
(* advance between reading and publishing it.                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Rounds, Recheck

VARIABLES cur,      \* the global epoch
          loc,      \* published epoch of each thread, 3: none
          prev,     \* epoch of the thread's previous critical section
          lst,      \* free lists: thread -> epoch -> objects
          pc, e, seen, hold, n, obj, nobj, bad
vars == <<cur, loc, prev, lst, pc, e, seen, hold, n, obj, nobj, bad>>
None == 3
Next3(x) == (x + 1) % 3
Prev3(x) == (x + 2) % 3

Init == /\ cur = 0 /\ loc = [t \in T |-> None] /\ prev = [t \in T |-> None]
        /\ lst = [t \in T |-> [x \in 0..2 |-> {}]]
        /\ pc = [t \in T |-> "idle"] /\ e = [t \in T |-> 0] /\ seen = [t \in T |-> {}]
        /\ hold = [t \in T |-> 0] /\ n = [t \in T |-> 0]
        /\ obj = 1 /\ nobj = 1 /\ bad = FALSE

Go(t, a) == pc' = [pc EXCEPT ![t] = a]
ReadEpoch(t) == /\ pc[t] = "idle" /\ n[t] < Rounds /\ n' = [n EXCEPT ![t] = @ + 1]
                /\ e' = [e EXCEPT ![t] = cur] /\ Go(t, "publish")
                /\ UNCHANGED <<cur, loc, prev, lst, seen, hold, obj, nobj, bad>>
Publish(t) == /\ pc[t] = "publish"
              /\ IF prev[t] # e[t]
                 THEN /\ bad' = (bad \/ obj \in lst[t][e[t]] \/ \E u \in T : hold[u] \in lst[t][e[t]]) /\ lst' = [lst EXCEPT ![t][e[t]] = {}]
                      /\ prev' = [prev EXCEPT ![t] = e[t]]
                 ELSE UNCHANGED <<bad, lst, prev>>
              /\ loc' = [loc EXCEPT ![t] = e[t]]
              /\ Go(t, IF Recheck THEN "recheck" ELSE "entered")
              /\ UNCHANGED <<cur, e, seen, hold, n, obj, nobj>>
Check(t) == /\ pc[t] = "recheck"
            /\ IF cur = e[t] THEN Go(t, "entered") /\ UNCHANGED <<loc, e>>
               ELSE Go(t, "publish") /\ loc' = [loc EXCEPT ![t] = None] /\ e' = [e EXCEPT ![t] = cur]
            /\ UNCHANGED <<cur, prev, lst, seen, hold, n, obj, nobj, bad>>
\* optionally try to advance: look at the threads one after the other
StartScan(t) == /\ pc[t] = "entered" /\ Go(t, "scan") /\ seen' = [seen EXCEPT ![t] = {}]
                /\ UNCHANGED <<cur, loc, prev, lst, e, hold, n, obj, nobj, bad>>
Scan(t) == /\ pc[t] = "scan"
           /\ \E u \in T \ seen[t] :
                IF loc[u] = Prev3(e[t]) THEN Go(t, "in") /\ UNCHANGED seen
                ELSE seen' = [seen EXCEPT ![t] = @ \cup {u}] /\ Go(t, IF seen[t] \cup {u} = T THEN "cas" ELSE "scan")
           /\ UNCHANGED <<cur, loc, prev, lst, e, hold, n, obj, nobj, bad>>
Cas(t) == /\ pc[t] = "cas" /\ Go(t, "in")
          /\ cur' = IF cur = e[t] THEN Next3(e[t]) ELSE cur
          /\ UNCHANGED <<loc, prev, lst, e, seen, hold, n, obj, nobj, bad>>
Skip(t) == pc[t] = "entered" /\ Go(t, "in") /\ UNCHANGED <<cur, loc, prev, lst, e, seen, hold, n, obj, nobj, bad>>
Read(t) == /\ pc[t] = "in" /\ hold' = [hold EXCEPT ![t] = obj] /\ Go(t, "use")
           /\ UNCHANGED <<cur, loc, prev, lst, e, seen, n, obj, nobj, bad>>
\* replacing and scheduling happen under the node's lock
Replace(t) == /\ pc[t] = "use" /\ hold[t] = obj
              /\ nobj' = nobj + 1 /\ obj' = nobj + 1
              /\ lst' = [lst EXCEPT ![t][loc[t]] = @ \cup {hold[t]}]
              /\ Go(t, "leave")
              /\ UNCHANGED <<cur, loc, prev, e, seen, hold, n, bad>>
Done(t) == pc[t] = "use" /\ Go(t, "leave") /\ UNCHANGED <<cur, loc, prev, lst, e, seen, hold, n, obj, nobj, bad>>
Leave(t) == /\ pc[t] = "leave" /\ loc' = [loc EXCEPT ![t] = None] /\ hold' = [hold EXCEPT ![t] = 0] /\ Go(t, "idle")
            /\ e' = [e EXCEPT ![t] = 0] /\ seen' = [seen EXCEPT ![t] = {}]
            /\ UNCHANGED <<cur, prev, lst, n, obj, nobj, bad>>
Next == \E t \in T : ReadEpoch(t) \/ Publish(t) \/ Check(t) \/ StartScan(t) \/ Scan(t) \/ Cas(t) \/ Skip(t) \/ Read(t) \/ Replace(t) \/ Done(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(T)

\* no freed node is held by a thread or still reachable
NoUseAfterFree == ~bad
=============================================================================
