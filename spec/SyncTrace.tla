----------------------------- MODULE SyncTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of synchronisation objects against SyncObj:*)
(* S is the set of configurations that explain the events seen so far.     *)
(* A deadlock or an endless wait ends the history with an "x" event, which *)
(* no configuration explains (scenarios are made so that every blocking    *)
(* call is eventually enabled).                                            *)
(***************************************************************************)
EXTENDS SyncObj, Json, IOUtils
Hs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, S
vars == <<h, l, S>>
Ev == Hs[h].ev
Init == /\ h \in 1..Len(Hs) /\ l = 1 /\ S = Start(Hs[h])
Match == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED h
         /\ S' = Advance(Hs[h], S, Ev[l]) /\ S' # {}
Reject == /\ l <= Len(Ev) /\ ~ENABLED Match
          /\ PrintT(<<"REJECT", h, l>>)
          /\ l' = 1000000 /\ UNCHANGED <<h, S>>
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
