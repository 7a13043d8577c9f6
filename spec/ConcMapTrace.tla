---------------------------- MODULE ConcMapTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of the real indexes against ConcMap.  The  *)
(* file named by TRACE holds one history per line; every history is an     *)
(* initial state.  A history that cannot be explained ends in a state with *)
(* C having an empty entry and prints a REJECT line; an event the          *)
(* specification has no action for (crash, hang, use after free) is        *)
(* rejected as well.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Lin

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, P, C
vars == <<h, l, P, C>>

Ev == H[h].ev
Threads == 0..8

Init == /\ h \in 1..Len(H)
        /\ l = 1
        /\ P = [t \in Threads |-> NoOp]
        /\ C = [k \in 0..(Len(H[h].init) - 1) |-> {<<H[h].init[k + 1], {}>>}]

IsEvent(e) == l <= Len(Ev) /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED h

Call == /\ IsEvent("c")
        /\ P[Ev[l].t] = NoOp
        /\ P' = [P EXCEPT ![Ev[l].t] = Ev[l]]
        /\ UNCHANGED C

RetP == /\ IsEvent("r")
        /\ P[Ev[l].t] # NoOp /\ ~IsRange(P[Ev[l].t])
        /\ C' = RetPoint(P, C, Ev[l].t, Ev[l].r)
        /\ Alive(C')
        /\ P' = [P EXCEPT ![Ev[l].t] = NoOp]

RetM == /\ IsEvent("r")
        /\ P[Ev[l].t] # NoOp /\ IsMulti(P[Ev[l].t])
        /\ C' = RetMulti(P, C, Ev[l].t, Ev[l].r)
        /\ Alive(C')
        /\ P' = [P EXCEPT ![Ev[l].t] = NoOp]

RetS == /\ IsEvent("r")
        /\ P[Ev[l].t] # NoOp /\ IsScan(P[Ev[l].t])
        /\ ScanShape(P[Ev[l].t], Ev[l].s)
        /\ C' = RetScan(P, C, Ev[l].t, Ev[l].s)
        /\ Alive(C')
        /\ P' = [P EXCEPT ![Ev[l].t] = NoOp]

Fin == /\ IsEvent("f")
       /\ C' = Final(P, C, Ev[l].m)
       /\ Alive(C')
       /\ UNCHANGED P

Match == Call \/ RetP \/ RetM \/ RetS \/ Fin
Reject == /\ l <= Len(Ev) /\ ~ENABLED Match
          /\ PrintT(<<"REJECT", h, l>>)
          /\ l' = 1000000 /\ UNCHANGED <<h, P, C>>
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
Accepted == l # 1000000
=============================================================================
