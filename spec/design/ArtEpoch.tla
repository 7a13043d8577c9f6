------------------------------ MODULE ArtEpoch ------------------------------
(***************************************************************************)
(* Epoch based reclamation as the adaptive radix tree uses it.  A thread   *)
(* publishes the global epoch when it enters, labels the nodes it unlinks  *)
(* with the global epoch at that time, and frees nodes whose label is      *)
(* smaller than every published epoch.  The list of a thread keeps one     *)
(* label for several nodes: adding a node renews the label.                *)
(* Defect: "none"; "le" frees labels equal to the oldest epoch; "own"      *)
(* labels with the epoch published by the thread itself; "early" labels    *)
(* the node before it is unlinked; "keep" does not renew the label.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Rounds, MaxEpoch, Defect
Inf == MaxEpoch + 5
VARIABLES cur, loc, lst, lab, pc, e, old, seen, hold, n, obj, nobj, bad
vars == <<cur, loc, lst, lab, pc, e, old, seen, hold, n, obj, nobj, bad>>
Init == /\ cur = 0 /\ loc = [t \in T |-> Inf] /\ lst = [t \in T |-> {}] /\ lab = [t \in T |-> 0]
        /\ pc = [t \in T |-> "idle"] /\ e = [t \in T |-> 0] /\ old = [t \in T |-> Inf] /\ seen = [t \in T |-> {}]
        /\ hold = [t \in T |-> 0] /\ n = [t \in T |-> 0] /\ obj = 1 /\ nobj = 1 /\ bad = FALSE
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Min(a, b) == IF a < b THEN a ELSE b

Enter(t) == /\ pc[t] = "idle" /\ n[t] < Rounds /\ n' = [n EXCEPT ![t] = @ + 1]
            /\ e' = [e EXCEPT ![t] = cur] /\ Go(t, "publish")
            /\ UNCHANGED <<cur, loc, lst, lab, old, seen, hold, obj, nobj, bad>>
Publish(t) == /\ pc[t] = "publish" /\ loc' = [loc EXCEPT ![t] = e[t]] /\ Go(t, "in")
              /\ UNCHANGED <<cur, lst, lab, e, old, seen, hold, n, obj, nobj, bad>>
Read(t) == /\ pc[t] = "in" /\ hold' = [hold EXCEPT ![t] = obj]
           /\ Go(t, "use")
           /\ e' = [e EXCEPT ![t] = IF Defect = "early" THEN cur ELSE 0]
           /\ UNCHANGED <<cur, loc, lst, lab, old, seen, n, obj, nobj, bad>>
Unlink(t) == /\ pc[t] = "use" /\ hold[t] = obj /\ nobj' = nobj + 1 /\ obj' = nobj + 1
             /\ Go(t, "mark")
             /\ UNCHANGED <<cur, loc, lst, lab, e, old, seen, hold, n, bad>>
Mark(t) == /\ pc[t] = "mark"
           /\ LET g == IF Defect = "own" THEN loc[t] ELSE IF Defect = "early" THEN e[t] ELSE cur IN
              lab' = [lab EXCEPT ![t] = IF Defect = "keep" /\ lst[t] # {} THEN @ ELSE g]
           /\ lst' = [lst EXCEPT ![t] = @ \cup {hold[t]}]
           /\ Go(t, "exit")
           /\ UNCHANGED <<cur, loc, e, old, seen, hold, n, obj, nobj, bad>>
Done(t) == pc[t] = "use" /\ Go(t, "exit") /\ UNCHANGED <<cur, loc, lst, lab, e, old, seen, hold, n, obj, nobj, bad>>
\* leaving: the epoch may be advanced; a thread with enough deleted nodes cleans up
Exit(t) == /\ pc[t] = "exit" /\ hold' = [hold EXCEPT ![t] = 0]
           /\ cur' \in {cur, Min(cur + 1, MaxEpoch)}
           /\ \/ Go(t, "idle") /\ UNCHANGED <<loc, seen, old>>
              \/ Go(t, "scan") /\ loc' = [loc EXCEPT ![t] = Inf] /\ seen' = [seen EXCEPT ![t] = {}] /\ old' = [old EXCEPT ![t] = Inf]
           /\ e' = [e EXCEPT ![t] = 0]
           /\ UNCHANGED <<lst, lab, n, obj, nobj, bad>>
Scan(t) == /\ pc[t] = "scan"
           /\ \E u \in T \ seen[t] : /\ seen' = [seen EXCEPT ![t] = @ \cup {u}]
                                     /\ old' = [old EXCEPT ![t] = Min(@, loc[u])]
                                     /\ Go(t, IF seen[t] \cup {u} = T THEN "free" ELSE "scan")
           /\ UNCHANGED <<cur, loc, lst, lab, e, hold, n, obj, nobj, bad>>
Free(t) == /\ pc[t] = "free" /\ Go(t, "idle")
           /\ IF lab[t] < old[t] \/ (Defect = "le" /\ lab[t] = old[t])
              THEN lst' = [lst EXCEPT ![t] = {}] /\ bad' = (bad \/ obj \in lst[t] \/ \E u \in T : hold[u] \in lst[t])
              ELSE UNCHANGED <<lst, bad>>
           /\ seen' = [seen EXCEPT ![t] = {}] /\ old' = [old EXCEPT ![t] = Inf]
           /\ UNCHANGED <<cur, loc, lab, e, hold, n, obj, nobj>>
Next == \E t \in T : Enter(t) \/ Publish(t) \/ Read(t) \/ Unlink(t) \/ Mark(t) \/ Done(t) \/ Exit(t) \/ Scan(t) \/ Free(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(T)
NoUseAfterFree == ~bad
=============================================================================
