---------------------------- MODULE SnapMapTrace ----------------------------
(* Validates recorded histories against SnapMap; see ConcMapTrace for the conventions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SnapMap

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, P, C
vars == <<h, l, P, C>>

Ev == H[h].ev

Init == /\ h \in 1..Len(H)
        /\ l = 1
        /\ P = [t \in 0..8 |-> NoOp]
        /\ C = {<<[k \in 0..(Len(H[h].init) - 1) |-> H[h].init[k + 1]], {}>>}

IsEvent(e) == l <= Len(Ev) /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED h

Call == /\ IsEvent("c") /\ P[Ev[l].t] = NoOp
        /\ P' = [P EXCEPT ![Ev[l].t] = Ev[l]] /\ UNCHANGED C
RetP == /\ IsEvent("r") /\ P[Ev[l].t] # NoOp /\ ~IsScan(P[Ev[l].t])
        /\ C' = Ret(P, C, Ev[l].t, Ev[l].r) /\ C' # {}
        /\ P' = [P EXCEPT ![Ev[l].t] = NoOp]
RetS == /\ IsEvent("r") /\ P[Ev[l].t] # NoOp /\ IsScan(P[Ev[l].t])
        /\ C' = RetScan(P, C, Ev[l].t, Ev[l].s) /\ C' # {}
        /\ P' = [P EXCEPT ![Ev[l].t] = NoOp]
Fin == /\ IsEvent("f") /\ C' = Final(P, C, Ev[l].m) /\ C' # {} /\ UNCHANGED P

Match == Call \/ RetP \/ RetS \/ Fin
Reject == /\ l <= Len(Ev) /\ ~ENABLED Match
          /\ PrintT(<<"REJECT", h, l>>)
          /\ l' = 1000000 /\ UNCHANGED <<h, P, C>>
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
