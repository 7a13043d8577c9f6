------------------------------- MODULE MassRcu -------------------------------
(***************************************************************************)
(* Global-epoch RCU as Masstree uses it.  The epoch thread increments the  *)
(* global epoch and publishes the smallest epoch of any reader as active;  *)
(* a thread frees what it retired in an epoch smaller than the active one. *)
(* A node must be unlinked before it is retired: Early = TRUE retires      *)
(* (records the epoch) first, which is what node removal, layer collection *)
(* and value removal did before they were repaired.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Rounds, MaxEpoch, Early
VARIABLES glob, act, gc, pc, e, hold, lst, n, obj, nobj, spc, se, sseen, bad
vars == <<glob, act, gc, pc, e, hold, lst, n, obj, nobj, spc, se, sseen, bad>>
Init == /\ glob = 1 /\ act = 1 /\ gc = [t \in T |-> 0] /\ pc = [t \in T |-> "idle"] /\ e = [t \in T |-> 0]
        /\ hold = [t \in T |-> 0] /\ lst = [t \in T |-> {}] /\ n = [t \in T |-> 0] /\ obj = 1 /\ nobj = 1
        /\ spc = "inc" /\ se = 0 /\ sseen = {} /\ bad = FALSE
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Enter(t) == /\ pc[t] = "idle" /\ n[t] < Rounds /\ n' = [n EXCEPT ![t] = @ + 1] /\ e' = [e EXCEPT ![t] = glob] /\ Go(t, "publish")
            /\ UNCHANGED <<glob, act, gc, hold, lst, obj, nobj, spc, se, sseen, bad>>
Publish(t) == /\ pc[t] = "publish" /\ gc' = [gc EXCEPT ![t] = e[t]] /\ Go(t, "in") /\ e' = [e EXCEPT ![t] = 0]
              /\ UNCHANGED <<glob, act, hold, lst, n, obj, nobj, spc, se, sseen, bad>>
Read(t) == /\ pc[t] = "in" /\ hold' = [hold EXCEPT ![t] = obj] /\ Go(t, "use")
           /\ UNCHANGED <<glob, act, gc, e, lst, n, obj, nobj, spc, se, sseen, bad>>
Retire(t) == lst' = [lst EXCEPT ![t] = @ \cup {<<hold[t], glob>>}]
Unlink == nobj' = nobj + 1 /\ obj' = nobj + 1
\* the two steps of a removal, in either order; the node is locked, so nobody else removes it
First(t) == /\ pc[t] = "use" /\ hold[t] = obj /\ \A u \in T \ {t} : pc[u] # "second" \/ hold[u] # obj
            /\ Go(t, "second")
            /\ IF Early THEN Retire(t) /\ UNCHANGED <<obj, nobj>> ELSE Unlink /\ UNCHANGED lst
            /\ UNCHANGED <<glob, act, gc, e, hold, n, spc, se, sseen, bad>>
Second(t) == /\ pc[t] = "second" /\ Go(t, "stop")
             /\ IF Early THEN Unlink /\ UNCHANGED lst ELSE Retire(t) /\ UNCHANGED <<obj, nobj>>
             /\ UNCHANGED <<glob, act, gc, e, hold, n, spc, se, sseen, bad>>
Done(t) == pc[t] = "use" /\ Go(t, "stop") /\ UNCHANGED <<glob, act, gc, e, hold, lst, n, obj, nobj, spc, se, sseen, bad>>
\* quiescence: free what is old enough, then stop protecting
Stop(t) == /\ pc[t] = "stop" /\ Go(t, "idle")
           /\ LET f == {x \in lst[t] : x[2] < act} IN
              /\ lst' = [lst EXCEPT ![t] = @ \ f]
              /\ bad' = (bad \/ \E x \in f : x[1] = obj \/ \E u \in T \ {t} : hold[u] = x[1])
           /\ hold' = [hold EXCEPT ![t] = 0] /\ gc' = [gc EXCEPT ![t] = 0]
           /\ UNCHANGED <<glob, act, e, n, obj, nobj, spc, se, sseen>>
\* the epoch thread
Inc == /\ spc = "inc" /\ glob < MaxEpoch /\ glob' = glob + 1 /\ spc' = "min0" /\ UNCHANGED <<act, gc, pc, e, hold, lst, n, obj, nobj, se, sseen, bad>>
Min0 == /\ spc = "min0" /\ se' = glob /\ sseen' = {} /\ spc' = "min" /\ UNCHANGED <<glob, act, gc, pc, e, hold, lst, n, obj, nobj, bad>>
MinStep == /\ spc = "min" /\ \E u \in T \ sseen : /\ se' = IF gc[u] # 0 /\ gc[u] < se THEN gc[u] ELSE se
                                                  /\ sseen' = sseen \cup {u}
                                                  /\ spc' = IF sseen \cup {u} = T THEN "set" ELSE "min"
           /\ UNCHANGED <<glob, act, gc, pc, e, hold, lst, n, obj, nobj, bad>>
Set == /\ spc = "set" /\ act' = se /\ spc' = "inc" /\ se' = 0 /\ sseen' = {} /\ UNCHANGED <<glob, gc, pc, e, hold, lst, n, obj, nobj, bad>>
Next == (\E t \in T : Enter(t) \/ Publish(t) \/ Read(t) \/ First(t) \/ Second(t) \/ Done(t) \/ Stop(t)) \/ Inc \/ Min0 \/ MinStep \/ Set
Spec == Init /\ [][Next]_vars
Sym == Permutations(T)
NoUseAfterFree == ~bad
=============================================================================
