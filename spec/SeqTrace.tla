------------------------------ MODULE SeqTrace ------------------------------
(***************************************************************************)
(* Validates recorded operation sequences of the sequential containers     *)
(* against their specifications.  S is the set of abstract states the      *)
(* container may be in; an operation whose result none of them allows is   *)
(* rejected, as is an event without an action (crash, endless loop, use of *)
(* freed memory).                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Ord == INSTANCE OrdSeq
Obj == INSTANCE ObjSeq

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, S
vars == <<h, l, S>>
Ev == H[h].ev

Start(x) == IF x.obj = "ord" THEN {<< <<>>, <<>> >>} ELSE Obj!Start(x)
Do(x, st, e) == IF x.obj = "ord" THEN Ord!Do(x.multi, st, e) ELSE Obj!Do(x, st, e)

Init == h \in 1..Len(H) /\ l = 1 /\ S = Start(H[h])
Op == /\ l <= Len(Ev) /\ Ev[l].e = "o"
      /\ S' = {x.st : x \in {y \in UNION {Do(H[h], st, Ev[l]) : st \in S} : y.r = Ev[l].r /\ y.s = Ev[l].s}}
      /\ S' # {}
      /\ l' = l + 1 /\ UNCHANGED h
Reject == /\ l <= Len(Ev) /\ ~ENABLED Op
          /\ PrintT(<<"REJECT", h, l>>)
          /\ l' = 1000000 /\ UNCHANGED <<h, S>>
Next == Op \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
