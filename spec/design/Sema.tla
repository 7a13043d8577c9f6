-------------------------------- MODULE Sema --------------------------------
(***************************************************************************)
(* The counting semaphore: a mutex, a condition variable and a value.      *)
(* Waiters take Delta tokens and leave Slack; wait() may also be called    *)
(* with a timeless try.  Defect: "none"; "one": signal wakes one waiter    *)
(* only; "if": the waiter does not look again after it was woken;          *)
(* "nolock": the value is raised without the mutex.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS W, S, Sigs, Waits, Defect
Need == {<<1, 0>>, <<2, 0>>, <<1, 1>>}
VARIABLES val, own, cv, pc, arg, n, taken, given, seen
vars == <<val, own, cv, pc, arg, n, taken, given, seen>>
T == W \cup S
Init == /\ val = 0 /\ own = "free" /\ cv = {} /\ pc = [t \in T |-> "idle"] /\ arg = [t \in T |-> <<1, 0>>] /\ n = [t \in T |-> 0]
        /\ taken = 0 /\ given = 0 /\ seen = [t \in T |-> 0]
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Call(t) == /\ pc[t] = "idle" /\ n[t] < (IF t \in W THEN Waits ELSE Sigs) /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ \E a \in (IF t \in W THEN Need ELSE {<<1, 0>>, <<2, 0>>}) : arg' = [arg EXCEPT ![t] = a]
           /\ Go(t, IF t \in S /\ Defect = "nolock" THEN "ld" ELSE "lock") /\ UNCHANGED <<val, own, cv, taken, given, seen>>
Lock(t) == pc[t] = "lock" /\ own = "free" /\ own' = t /\ Go(t, IF t \in W THEN "test" ELSE "ld") /\ UNCHANGED <<val, cv, arg, n, taken, given, seen>>
Test(t) == /\ pc[t] = "test" /\ IF val < arg[t][1] + arg[t][2] THEN Go(t, "sleep") /\ UNCHANGED <<val, taken>>
                                ELSE Go(t, "unlock") /\ val' = val - arg[t][1] /\ taken' = taken + arg[t][1]
           /\ UNCHANGED <<own, cv, arg, n, given, seen>>
\* releasing the mutex and joining the wait set is one step
Sleep(t) == pc[t] = "sleep" /\ own' = "free" /\ cv' = cv \cup {t} /\ Go(t, "asleep") /\ UNCHANGED <<val, arg, n, taken, given, seen>>
Spur(t) == pc[t] = "asleep" /\ t \in cv /\ cv' = cv \ {t} /\ UNCHANGED <<val, own, pc, arg, n, taken, given, seen>>
Wake(t) == /\ pc[t] = "asleep" /\ t \notin cv /\ own = "free" /\ own' = t
           /\ IF Defect = "if" THEN Go(t, "unlock") /\ val' = val - arg[t][1] /\ taken' = taken + arg[t][1] ELSE Go(t, "test") /\ UNCHANGED <<val, taken>>
           /\ UNCHANGED <<cv, arg, n, given, seen>>
Unlock(t) == pc[t] = "unlock" /\ own' = "free" /\ Go(t, "idle") /\ UNCHANGED <<val, cv, arg, n, taken, given, seen>>
Ld(t) == pc[t] = "ld" /\ seen' = [seen EXCEPT ![t] = val] /\ Go(t, "st") /\ UNCHANGED <<val, own, cv, arg, n, taken, given>>
St(t) == pc[t] = "st" /\ val' = seen[t] + arg[t][1] /\ given' = given + arg[t][1] /\ Go(t, "note") /\ UNCHANGED <<own, cv, arg, n, taken, seen>>
Note(t) == /\ pc[t] = "note" /\ (IF Defect = "one" THEN IF cv = {} THEN cv' = cv ELSE \E u \in cv : cv' = cv \ {u} ELSE cv' = {})
           /\ Go(t, IF Defect = "nolock" THEN "idle" ELSE "unlock") /\ UNCHANGED <<val, own, arg, n, taken, given, seen>>
Next == \/ \E t \in T : Call(t) \/ Lock(t) \/ Unlock(t) \/ Note(t)
        \/ \E t \in W : Test(t) \/ Sleep(t) \/ Wake(t)
        \/ \E t \in S : Ld(t) \/ St(t)
NextS == Next \/ \E t \in W : Spur(t)
Spec == Init /\ [][NextS]_vars
Sym == Permutations(W)
Conserved == val >= 0 /\ val + taken = given
\* when nothing can move without a spurious wake-up, nobody who could be served is asleep
Served == ~(ENABLED Next) => \A t \in W : pc[t] = "asleep" => val < arg[t][1] + arg[t][2]
=============================================================================
