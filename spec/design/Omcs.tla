-------------------------------- MODULE Omcs --------------------------------
(***************************************************************************)
(* The optimistic queue latch of OptiQL.  Writers queue up as in an MCS    *)
(* lock; the latch word holds either a version (free) or the tail of the   *)
(* queue.  Readers take no latch: they remember the word, read, and        *)
(* succeed when the word is unchanged.  While a latch is handed over, the  *)
(* releaser opens a window for opportunistic readers (con), which the new  *)
(* owner closes again.  A reader can turn into a writer if the word still  *)
(* is the version it has seen.                                             *)
(* Offset: the word also carries the version while the window is open.     *)
(* Without it (plain pointers) an opportunistic read suffers from ABA,     *)
(* which is the documented limitation of that variant.                     *)
(* Defect: "none"; "open": the new owner does not close the window;        *)
(* "upgrade": an opportunistic read may be upgraded; "nobump": unlocking   *)
(* publishes the version the owner started from.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Ops, OpRead, Offset, Defect
Nil == "nil"
Ver(v) == [k |-> "v", v |-> v, q |-> Nil, con |-> FALSE]
Que(t) == [k |-> "q", v |-> 0, q |-> t, con |-> FALSE]
VARIABLES tail, nxt, nver, pc, n, d1, d2, w, r1, r2, succ, bad
vars == <<tail, nxt, nver, pc, n, d1, d2, w, r1, r2, succ, bad>>
Init == /\ tail = Ver(1) /\ nxt = [t \in T |-> Nil] /\ nver = [t \in T |-> 0] /\ pc = [t \in T |-> "idle"]
        /\ n = [t \in T |-> 0] /\ d1 = 0 /\ d2 = 0 /\ w = [t \in T |-> Ver(0)] /\ r1 = [t \in T |-> 0] /\ r2 = [t \in T |-> 0]
        /\ succ = [t \in T |-> Nil] /\ bad = FALSE
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
D == <<d1, d2>>  R == <<r1, r2>>

\* --- writer
Lock(t) == /\ pc[t] = "idle" /\ n[t] < Ops /\ n' = [n EXCEPT ![t] = @ + 1]
           /\ nxt' = [nxt EXCEPT ![t] = Nil] /\ nver' = [nver EXCEPT ![t] = 0] /\ Go(t, "xchg")
           /\ UNCHANGED <<tail, D, w, R, succ, bad>>
Xchg(t) == /\ pc[t] = "xchg" /\ tail' = Que(t)
           /\ IF tail.k = "v" THEN Go(t, "w1") /\ nver' = [nver EXCEPT ![t] = tail.v + 1] /\ UNCHANGED succ
              ELSE Go(t, "link") /\ succ' = [succ EXCEPT ![t] = tail.q] /\ UNCHANGED nver
           /\ UNCHANGED <<nxt, n, D, w, R, bad>>
Link(t) == /\ pc[t] = "link" /\ nxt' = [nxt EXCEPT ![succ[t]] = t] /\ Go(t, "spin") /\ succ' = [succ EXCEPT ![t] = Nil]
           /\ UNCHANGED <<tail, nver, n, D, w, R, bad>>
Granted(t) == /\ pc[t] = "spin" /\ nver[t] # 0 /\ Go(t, IF OpRead /\ Defect # "open" THEN "close" ELSE "w1")
              /\ UNCHANGED <<tail, nxt, nver, n, D, w, R, succ, bad>>
Close(t) == /\ pc[t] = "close" /\ tail' = [tail EXCEPT !.con = FALSE, !.v = 0] /\ Go(t, "w1")
            /\ UNCHANGED <<nxt, nver, n, D, w, R, succ, bad>>
W1(t) == /\ pc[t] = "w1" /\ d1' = d1 + 1 /\ Go(t, "w2") /\ UNCHANGED <<tail, nxt, nver, n, d2, w, R, succ, bad>>
W2(t) == /\ pc[t] = "w2" /\ d2' = d2 + 1 /\ Go(t, "unlock") /\ UNCHANGED <<tail, nxt, nver, n, d1, w, R, succ, bad>>
Open(t) == IF OpRead THEN tail' = [tail EXCEPT !.con = TRUE, !.v = IF Offset THEN nver[t] ELSE 0] ELSE UNCHANGED tail
Unlock(t) == /\ pc[t] = "unlock" /\ Go(t, IF nxt[t] = Nil THEN "cas" ELSE "open")
             /\ UNCHANGED <<tail, nxt, nver, n, D, w, R, succ, bad>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF tail = Que(t) THEN tail' = Ver(IF Defect = "nobump" THEN nver[t] - 1 ELSE nver[t]) /\ Go(t, "idle")
             ELSE Go(t, "open") /\ UNCHANGED tail
          /\ UNCHANGED <<nxt, nver, n, D, w, R, succ, bad>>
OpenW(t) == /\ pc[t] = "open" /\ Open(t) /\ Go(t, "pass") /\ UNCHANGED <<nxt, nver, n, D, w, R, succ, bad>>
Pass(t) == /\ pc[t] = "pass" /\ nxt[t] # Nil /\ nver' = [nver EXCEPT ![nxt[t]] = nver[t] + 1] /\ Go(t, "idle")
           /\ UNCHANGED <<tail, nxt, n, D, w, R, succ, bad>>
\* --- reader, possibly turning into a writer
Begin(t) == /\ pc[t] = "idle" /\ n[t] < Ops /\ (tail.k = "v" \/ tail.con) /\ n' = [n EXCEPT ![t] = @ + 1]
            /\ w' = [w EXCEPT ![t] = tail] /\ Go(t, "r1") /\ UNCHANGED <<tail, nxt, nver, D, R, succ, bad>>
R1(t) == /\ pc[t] = "r1" /\ r1' = [r1 EXCEPT ![t] = d1] /\ Go(t, "r2") /\ UNCHANGED <<tail, nxt, nver, n, D, w, r2, succ, bad>>
R2(t) == /\ pc[t] = "r2" /\ r2' = [r2 EXCEPT ![t] = d2] /\ Go(t, "val") /\ UNCHANGED <<tail, nxt, nver, n, D, w, r1, succ, bad>>
Clear(t) == /\ w' = [w EXCEPT ![t] = Ver(0)] /\ r1' = [r1 EXCEPT ![t] = 0] /\ r2' = [r2 EXCEPT ![t] = 0]
Validate(t) == /\ pc[t] = "val" /\ bad' = (bad \/ (tail = w[t] /\ r1[t] # r2[t]))
               /\ \/ Go(t, "idle") /\ Clear(t)
                  \/ tail = w[t] /\ (w[t].k = "v" \/ Defect = "upgrade") /\ Go(t, "up") /\ UNCHANGED <<w, r1, r2>>
               /\ UNCHANGED <<tail, nxt, nver, n, D, succ>>
Up(t) == /\ pc[t] = "up" /\ nxt' = [nxt EXCEPT ![t] = Nil] /\ nver' = [nver EXCEPT ![t] = w[t].v + 1] /\ Go(t, "upcas")
         /\ UNCHANGED <<tail, n, D, w, R, succ, bad>>
UpCas(t) == /\ pc[t] = "upcas"
            /\ IF tail = w[t] THEN /\ tail' = Que(t) /\ Go(t, "w1")
                                   /\ bad' = (bad \/ d1 # d2 \/ r1[t] # d1)   \* what was read still holds
                              ELSE Go(t, "idle") /\ UNCHANGED <<tail, bad>>
            /\ Clear(t)
            /\ UNCHANGED <<nxt, nver, n, D, succ>>
Next == \E t \in T : \/ Lock(t) \/ Xchg(t) \/ Link(t) \/ Granted(t) \/ Close(t) \/ W1(t) \/ W2(t) \/ Unlock(t) \/ Cas(t) \/ OpenW(t) \/ Pass(t)
                     \/ Begin(t) \/ R1(t) \/ R2(t) \/ Validate(t) \/ Up(t) \/ UpCas(t)
Done == \A t \in T : pc[t] = "idle"
Spec == Init /\ [][Next \/ (Done /\ UNCHANGED vars)]_vars
Sym == Permutations(T)
Crit(t) == pc[t] \in {"w1", "w2", "unlock"}
Mutex == \A t, u \in T : t # u => ~(Crit(t) /\ Crit(u))
ReadsConsistent == ~bad
\* a version never returns
Versions == tail.k = "v" /\ tail.v > 0 => \A t \in T : pc[t] \in {"r1", "r2", "val"} /\ w[t].k = "v" => w[t].v <= tail.v
=============================================================================
