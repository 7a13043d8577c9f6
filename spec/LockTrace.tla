----------------------------- MODULE LockTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of the latches.  Every latch k protects a  *)
(* counter; the operations on it are atomic (Lin over key k), and the      *)
(* acquire / release events, logged while the latch is held, obey mutual   *)
(* exclusion: an exclusive holder is alone.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Lin

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, P, C, X
vars == <<h, l, P, C, X>>
Ev == H[h].ev

Init == /\ h \in 1..Len(H)
        /\ l = 1
        /\ P = [t \in 0..8 |-> NoOp]
        /\ C = [k \in 0..(Len(H[h].init) - 1) |-> {<<H[h].init[k + 1], {}>>}]
        /\ X = {}                                   \* <<latch, thread, mode>>

IsEvent(e) == l <= Len(Ev) /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED h

Acquire == /\ IsEvent("a")
           /\ \A x \in X : x[1] = Ev[l].k => x[3] = "s" /\ Ev[l].m = "s"
           /\ X' = X \cup {<<Ev[l].k, Ev[l].t, Ev[l].m>>}
           /\ UNCHANGED <<P, C>>
Release == /\ IsEvent("l")
           /\ \E x \in X : x[1] = Ev[l].k /\ x[2] = Ev[l].t /\ X' = X \ {x}
           /\ UNCHANGED <<P, C>>
Call == /\ IsEvent("c") /\ P[Ev[l].t] = NoOp
        /\ P' = [P EXCEPT ![Ev[l].t] = Ev[l]] /\ UNCHANGED <<C, X>>
Ret == /\ IsEvent("r") /\ P[Ev[l].t] # NoOp
       /\ C' = RetPoint(P, C, Ev[l].t, Ev[l].r) /\ Alive(C')
       /\ P' = [P EXCEPT ![Ev[l].t] = NoOp] /\ UNCHANGED X
Fin == IsEvent("f") /\ X = {} /\ C' = Final(P, C, Ev[l].m) /\ Alive(C') /\ UNCHANGED <<P, X>>

Match == Acquire \/ Release \/ Call \/ Ret \/ Fin
Reject == /\ l <= Len(Ev) /\ ~ENABLED Match
          /\ PrintT(<<"REJECT", h, l>>)
          /\ l' = 1000000 /\ UNCHANGED <<h, P, C, X>>
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
