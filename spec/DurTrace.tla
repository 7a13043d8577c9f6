------------------------------ MODULE DurTrace ------------------------------
(***************************************************************************)
(* Crash and recovery of a logged store.  A history is a sequence of       *)
(* generations: operations as in ConcMapTrace, loggers that finish         *)
(* iterations ("it"), log epochs that begin ("ep"), a crash ("cut"), and   *)
(* what the store holds after recovery ("rec"; "pre": after a recovery     *)
(* that itself crashed before anything else was done).                     *)
(*                                                                         *)
(* Recovery has to yield the contents at some instant before the crash: an *)
(* instant i, such that the operations that had returned by then have      *)
(* taken effect, those called later have not, and those under way may have *)
(* taken effect, in an order that explains every result seen by then.  The *)
(* instant is not arbitrarily old: whatever had returned before Rounds     *)
(* rounds of flushing is recovered; in a round a new epoch begins and      *)
(* every logger then completes an iteration.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Lin

H == ndJsonDeserialize(IOEnv.TRACE)
Rounds == 2

VARIABLES h, l, P, C,
          S,    \* the pending operations and configurations after each call and return of this generation
          R,    \* positions in S at which the rounds began
          n     \* logger -> iterations ended in this round since its epoch began; -1: no epoch has begun
vars == <<h, l, P, C, S, R, n>>

Ev == H[h].ev
Threads == 0..8
Loggers == 0..(H[h].nlog - 1)
Fresh == [x \in Loggers |-> -1]

Init == /\ h \in 1..Len(H)
        /\ l = 1
        /\ P = [t \in Threads |-> NoOp]
        /\ C = [k \in 0..(Len(H[h].init) - 1) |-> {<<H[h].init[k + 1], {}>>}]
        /\ S = <<[p |-> P, c |-> C]>>
        /\ R = <<1>>
        /\ n = [x \in 0..(H[h].nlog - 1) |-> -1]

IsEvent(e) == l <= Len(Ev) /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED h

Call == /\ IsEvent("c")
        /\ P[Ev[l].t] = NoOp
        /\ P' = [P EXCEPT ![Ev[l].t] = Ev[l]]
        /\ S' = Append(S, [p |-> P', c |-> C])
        /\ UNCHANGED <<C, R, n>>

Ret == /\ IsEvent("r")
       /\ P[Ev[l].t] # NoOp
       /\ C' = RetPoint(P, C, Ev[l].t, Ev[l].r)
       /\ Alive(C')
       /\ P' = [P EXCEPT ![Ev[l].t] = NoOp]
       /\ S' = Append(S, [p |-> P', c |-> C'])
       /\ UNCHANGED <<R, n>>

Epoch == /\ IsEvent("ep")
         /\ n' = [x \in Loggers |-> IF n[x] = -1 THEN 0 ELSE n[x]]
         /\ UNCHANGED <<P, C, S, R>>

\* the end of an iteration of logger x: the iteration itself lies between two of them
Iter == /\ IsEvent("it")
        /\ LET x == Ev[l].l
               m == [n EXCEPT ![x] = IF n[x] = -1 THEN -1 ELSE n[x] + 1]
           IN IF \A y \in Loggers : m[y] >= 2
              THEN n' = Fresh /\ R' = Append(R, Len(S))
              ELSE n' = m /\ R' = R
        /\ UNCHANGED <<P, C, S>>

Cut == IsEvent("cut") /\ UNCHANGED <<P, C, S, R, n>>

Since == IF Len(R) > Rounds THEN R[Len(R) - Rounds] ELSE 1
Recovered(m) == \E i \in Since..Len(S) : Alive(Final(S[i].p, S[i].c, m))

Pre == IsEvent("pre") /\ Recovered(Ev[l].m) /\ UNCHANGED <<P, C, S, R, n>>

Rec == /\ IsEvent("rec") /\ Recovered(Ev[l].m)
       /\ P' = [t \in Threads |-> NoOp]
       /\ C' = [k \in DOMAIN C |-> {<<Ev[l].m[k + 1], {}>>}]
       /\ S' = <<[p |-> P', c |-> C']>>
       /\ R' = <<1>>
       /\ n' = Fresh

Match == Call \/ Ret \/ Epoch \/ Iter \/ Cut \/ Pre \/ Rec
Reject == /\ l <= Len(Ev) /\ ~ENABLED Match
          /\ PrintT(<<"REJECT", h, l>>)
          /\ l' = 1000000 /\ UNCHANGED <<h, P, C, S, R, n>>
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
Accepted == l # 1000000
=============================================================================
