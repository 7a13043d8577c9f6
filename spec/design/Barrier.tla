-------------------------------- MODULE Barrier --------------------------------
(***************************************************************************)
(* The two thread barriers: Kind = "mutex" (two alternating counters, a    *)
(* condition variable) and Kind = "spin" (one arrival counter and a        *)
(* generation).  The last thread to arrive runs an action alone.           *)
(* Defect: "none"; "after": the action runs after the others were let go;  *)
(* "late": the spin barrier resets its counter after the generation step;  *)
(* "one": the mutex barrier wakes one; "noreset": the counter of the next  *)
(* round is not reset; "single": the mutex barrier uses a single counter,  *)
(* reset by the last thread; "step": the generation is read after arrival. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Gens, Kind, Defect
VARIABLES own, cv, cnt, step, wait, pc, g, cur, act, arrived
vars == <<own, cv, cnt, step, wait, pc, g, cur, act, arrived>>
Init == /\ own = "free" /\ cv = {} /\ cnt = <<0, 0>> /\ step = 0 /\ wait = 0 /\ pc = [t \in T |-> "out"] /\ g = [t \in T |-> 0]
        /\ cur = [t \in T |-> 0] /\ act = 0 /\ arrived = [t \in T |-> 0]
Nt == Cardinality(T)
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Call(t) == /\ pc[t] = "out" /\ g[t] < Gens /\ arrived' = [arrived EXCEPT ![t] = @ + 1] /\ Go(t, IF Kind = "mutex" THEN "lock" ELSE IF Defect = "step" THEN "inc" ELSE "ldstep")
           /\ UNCHANGED <<own, cv, cnt, step, wait, g, cur, act>>
Ret(t) == g' = [g EXCEPT ![t] = @ + 1] /\ Go(t, "out")
\* --- mutex barrier
Lock(t) == /\ pc[t] = "lock" /\ own = "free" /\ own' = t /\ LET c == IF Defect = "single" THEN 0 ELSE step IN
             /\ cur' = [cur EXCEPT ![t] = c] /\ cnt' = [cnt EXCEPT ![c + 1] = @ + 1]
             /\ Go(t, IF cnt[c + 1] + 1 < Nt THEN "sleep" ELSE "last")
           /\ UNCHANGED <<cv, step, wait, g, act, arrived>>
Sleep(t) == pc[t] = "sleep" /\ own' = "free" /\ cv' = cv \cup {t} /\ Go(t, "asleep") /\ UNCHANGED <<cnt, step, wait, g, cur, act, arrived>>
Wake(t) == /\ pc[t] = "asleep" /\ t \notin cv /\ own = "free" /\ IF cnt[cur[t] + 1] < Nt THEN own' = t /\ Go(t, "sleep") /\ UNCHANGED g ELSE own' = own /\ Ret(t)
           /\ UNCHANGED <<cv, cnt, step, wait, cur, act, arrived>>
Spur(t) == pc[t] = "asleep" /\ t \in cv /\ cv' = cv \ {t} /\ UNCHANGED <<own, cnt, step, wait, pc, g, cur, act, arrived>>
Last(t) == /\ pc[t] = "last" /\ step' = 1 - step /\ cnt' = (IF Defect = "noreset" THEN cnt ELSE IF Defect = "single" THEN [cnt EXCEPT ![1] = 0] ELSE [cnt EXCEPT ![(1 - step) + 1] = 0])
           /\ Go(t, IF Defect = "after" THEN "note" ELSE "act") /\ UNCHANGED <<own, cv, wait, g, cur, act, arrived>>
Act(t) == pc[t] = "act" /\ act' = act + 1 /\ Go(t, IF Kind = "spin" THEN "inc2" ELSE IF Defect = "after" THEN "unl" ELSE "note") /\ UNCHANGED <<own, cv, cnt, step, wait, g, cur, arrived>>
Note(t) == /\ pc[t] = "note" /\ (IF Defect = "one" THEN IF cv = {} THEN cv' = cv ELSE \E u \in cv : cv' = cv \ {u} ELSE cv' = {})
           /\ Go(t, IF Defect = "after" THEN "act" ELSE "unl") /\ own' = (IF Defect = "after" THEN "free" ELSE own) /\ UNCHANGED <<cnt, step, wait, g, cur, act, arrived>>
Unl(t) == pc[t] = "unl" /\ own' = (IF own = t THEN "free" ELSE own) /\ Ret(t) /\ UNCHANGED <<cv, cnt, step, wait, cur, act, arrived>>
\* --- spin barrier
LdStep(t) == pc[t] = "ldstep" /\ cur' = [cur EXCEPT ![t] = step] /\ Go(t, IF Defect = "step" THEN "spin" ELSE "inc") /\ UNCHANGED <<own, cv, cnt, step, wait, g, act, arrived>>
Inc(t) == /\ pc[t] = "inc" /\ wait' = wait + 1
          /\ Go(t, IF wait = Nt - 1 THEN (IF Defect = "late" THEN "act" ELSE "reset") ELSE IF Defect = "step" THEN "ldstep" ELSE "spin")
          /\ UNCHANGED <<own, cv, cnt, step, g, cur, act, arrived>>
Reset(t) == /\ pc[t] = "reset" /\ wait' = 0 /\ (IF Defect = "late" THEN Ret(t) ELSE Go(t, IF Defect = "after" THEN "inc2" ELSE "act") /\ UNCHANGED g) /\ UNCHANGED <<own, cv, cnt, step, cur, act, arrived>>
Inc2(t) == /\ pc[t] = "inc2" /\ step' = step + 1 /\ (IF Defect = "late" THEN Go(t, "reset") /\ UNCHANGED g ELSE IF Defect = "after" THEN Go(t, "act2") /\ UNCHANGED g ELSE Ret(t))
           /\ UNCHANGED <<own, cv, cnt, wait, cur, act, arrived>>
Act2(t) == pc[t] = "act2" /\ act' = act + 1 /\ Ret(t) /\ UNCHANGED <<own, cv, cnt, step, wait, cur, arrived>>
Spin(t) == pc[t] = "spin" /\ step # cur[t] /\ Ret(t) /\ UNCHANGED <<own, cv, cnt, step, wait, cur, act, arrived>>
Next == \E t \in T : Call(t) \/ Lock(t) \/ Sleep(t) \/ Wake(t) \/ Last(t) \/ Act(t) \/ Note(t) \/ Unl(t) \/ LdStep(t) \/ Inc(t) \/ Reset(t) \/ Inc2(t) \/ Act2(t) \/ Spin(t)
Done == \A t \in T : pc[t] = "out" /\ g[t] = Gens
Spec == Init /\ [][Next \/ (Done /\ UNCHANGED vars) \/ \E t \in T : Spur(t)]_vars
Sym == Permutations(T)
\* nobody leaves round k before everybody has arrived at it and the action of the round has run
Together == \A t \in T : (\A u \in T : arrived[u] >= g[t]) /\ act >= g[t]
\* the action runs once per round, while everybody waits
Once == \A t \in T : pc[t] = "act" => act = arrived[t] - 1 /\ \A u \in T : arrived[u] = arrived[t] /\ g[u] = g[t]
NoStuck == ~(ENABLED Next) => Done
=============================================================================
