-------------------------------- MODULE McsRw --------------------------------
(***************************************************************************)
(* The fair queue-based reader-writer latch (Mellor-Crummey and Scott) of  *)
(* OptiQL.  Every atomic access of the implementation is one step.         *)
(* Defect: "none"; "noregister": a reader does not tell its predecessor    *)
(* that it follows (it is blocked behind a waiting reader for good);       *)
(* "exit": the last reader hands over without looking for readers that     *)
(* arrived in between; "unblock": the count is raised after the successor  *)
(* is unblocked.                                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS T, Ops, Defect
Nil == "nil"
VARIABLES tail, nw, rc,              \* queue tail, next writer, number of active readers
          nxt, cls, blk, sc,         \* queue node of each thread: next, class, blocked, class of the successor
          pc, n, prev
vars == <<tail, nw, rc, nxt, cls, blk, sc, pc, n, prev>>
Init == /\ tail = Nil /\ nw = Nil /\ rc = 0 /\ nxt = [t \in T |-> Nil] /\ cls = [t \in T |-> "r"] /\ blk = [t \in T |-> FALSE]
        /\ sc = [t \in T |-> "n"] /\ pc = [t \in T |-> "idle"] /\ n = [t \in T |-> 0] /\ prev = [t \in T |-> Nil]
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Start(t, c) == /\ pc[t] = "idle" /\ n[t] < Ops /\ n' = [n EXCEPT ![t] = @ + 1]
               /\ cls' = [cls EXCEPT ![t] = c] /\ blk' = [blk EXCEPT ![t] = TRUE] /\ sc' = [sc EXCEPT ![t] = "n"] /\ nxt' = [nxt EXCEPT ![t] = Nil]
               /\ Go(t, IF c = "w" THEN "wx" ELSE "rx") /\ UNCHANGED <<tail, nw, rc, prev>>
\* --- writer
WX(t) == /\ pc[t] = "wx" /\ tail' = t /\ prev' = [prev EXCEPT ![t] = tail] /\ Go(t, IF tail = Nil THEN "w1" ELSE "w5")
         /\ UNCHANGED <<nw, rc, nxt, cls, blk, sc, n>>
W1(t) == pc[t] = "w1" /\ nw' = t /\ Go(t, "w2") /\ UNCHANGED <<tail, rc, nxt, cls, blk, sc, n, prev>>
W2(t) == pc[t] = "w2" /\ Go(t, IF rc = 0 THEN "w3" ELSE "wspin") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
W3(t) == pc[t] = "w3" /\ nw' = Nil /\ Go(t, IF nw = t THEN "wcrit" ELSE "wspin")
         /\ blk' = [blk EXCEPT ![t] = IF nw = t THEN FALSE ELSE @] /\ UNCHANGED <<tail, rc, nxt, cls, sc, n, prev>>
W5(t) == pc[t] = "w5" /\ sc' = [sc EXCEPT ![prev[t]] = "w"] /\ Go(t, "w6") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, n, prev>>
W6(t) == pc[t] = "w6" /\ nxt' = [nxt EXCEPT ![prev[t]] = t] /\ Go(t, "wspin") /\ UNCHANGED <<tail, nw, rc, cls, blk, sc, n, prev>>
WSpin(t) == pc[t] = "wspin" /\ ~blk[t] /\ Go(t, "wcrit") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
WU1(t) == pc[t] = "wcrit" /\ Go(t, IF nxt[t] = Nil THEN "wu2" ELSE "wu3") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
WU2(t) == pc[t] = "wu2" /\ (IF tail = t THEN tail' = Nil /\ Go(t, "idle") ELSE Go(t, "wu3") /\ UNCHANGED tail)
          /\ UNCHANGED <<nw, rc, nxt, cls, blk, sc, n, prev>>
WU3(t) == pc[t] = "wu3" /\ nxt[t] # Nil
          /\ (IF Defect = "unblock" THEN Go(t, "wu4b") /\ blk' = [blk EXCEPT ![nxt[t]] = FALSE] /\ UNCHANGED rc
              ELSE Go(t, "wu4") /\ rc' = (IF cls[nxt[t]] = "r" THEN rc + 1 ELSE rc) /\ UNCHANGED blk)
          /\ UNCHANGED <<tail, nw, nxt, cls, sc, n, prev>>
WU4(t) == pc[t] = "wu4" /\ blk' = [blk EXCEPT ![nxt[t]] = FALSE] /\ Go(t, "idle") /\ UNCHANGED <<tail, nw, rc, nxt, cls, sc, n, prev>>
WU4b(t) == pc[t] = "wu4b" /\ rc' = (IF cls[nxt[t]] = "r" THEN rc + 1 ELSE rc) /\ Go(t, "idle") /\ UNCHANGED <<tail, nw, nxt, cls, blk, sc, n, prev>>
\* --- reader
RX(t) == /\ pc[t] = "rx" /\ tail' = t /\ prev' = [prev EXCEPT ![t] = tail] /\ Go(t, IF tail = Nil THEN "r1" ELSE "r3")
         /\ UNCHANGED <<nw, rc, nxt, cls, blk, sc, n>>
R1(t) == pc[t] = "r1" /\ rc' = rc + 1 /\ blk' = [blk EXCEPT ![t] = FALSE] /\ Go(t, "r9") /\ UNCHANGED <<tail, nw, nxt, cls, sc, n, prev>>
R3(t) == /\ pc[t] = "r3"
         /\ IF cls[prev[t]] = "w" THEN Go(t, "r4") /\ UNCHANGED sc
            ELSE IF blk[prev[t]] /\ sc[prev[t]] = "n"
            THEN Go(t, "r4") /\ sc' = [sc EXCEPT ![prev[t]] = IF Defect = "noregister" THEN @ ELSE "r"]
            ELSE Go(t, "r6") /\ UNCHANGED sc
         /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, n, prev>>
R4(t) == pc[t] = "r4" /\ nxt' = [nxt EXCEPT ![prev[t]] = t] /\ Go(t, "rspin") /\ UNCHANGED <<tail, nw, rc, cls, blk, sc, n, prev>>
RSpin(t) == pc[t] = "rspin" /\ ~blk[t] /\ Go(t, "r9") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
R6(t) == pc[t] = "r6" /\ rc' = rc + 1 /\ Go(t, "r7") /\ UNCHANGED <<tail, nw, nxt, cls, blk, sc, n, prev>>
R7(t) == pc[t] = "r7" /\ nxt' = [nxt EXCEPT ![prev[t]] = t] /\ Go(t, "r8") /\ UNCHANGED <<tail, nw, rc, cls, blk, sc, n, prev>>
R8(t) == pc[t] = "r8" /\ blk' = [blk EXCEPT ![t] = FALSE] /\ Go(t, "r9") /\ UNCHANGED <<tail, nw, rc, nxt, cls, sc, n, prev>>
R9(t) == pc[t] = "r9" /\ Go(t, IF sc[t] = "r" THEN "r10" ELSE "rcrit") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
R10(t) == pc[t] = "r10" /\ nxt[t] # Nil /\ rc' = rc + 1 /\ Go(t, "r11") /\ UNCHANGED <<tail, nw, nxt, cls, blk, sc, n, prev>>
R11(t) == pc[t] = "r11" /\ blk' = [blk EXCEPT ![nxt[t]] = FALSE] /\ Go(t, "rcrit") /\ UNCHANGED <<tail, nw, rc, nxt, cls, sc, n, prev>>
RU1(t) == pc[t] = "rcrit" /\ Go(t, IF nxt[t] = Nil THEN "ru2" ELSE "ru3") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
RU2(t) == pc[t] = "ru2" /\ (IF tail = t THEN tail' = Nil /\ Go(t, "ru5") ELSE Go(t, "ru3") /\ UNCHANGED tail)
          /\ UNCHANGED <<nw, rc, nxt, cls, blk, sc, n, prev>>
RU3(t) == pc[t] = "ru3" /\ nxt[t] # Nil /\ Go(t, "ru5") /\ (IF sc[t] = "w" THEN nw' = nxt[t] ELSE UNCHANGED nw)
          /\ UNCHANGED <<tail, rc, nxt, cls, blk, sc, n, prev>>
RU5(t) == pc[t] = "ru5" /\ rc' = rc - 1 /\ Go(t, IF rc = 1 THEN "ru6" ELSE "idle") /\ UNCHANGED <<tail, nw, nxt, cls, blk, sc, n, prev>>
RU6(t) == pc[t] = "ru6" /\ prev' = [prev EXCEPT ![t] = nw] /\ Go(t, IF nw = Nil THEN "idle" ELSE IF Defect = "exit" THEN "ru8" ELSE "ru7")
          /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n>>
RU7(t) == pc[t] = "ru7" /\ Go(t, IF rc = 0 THEN "ru8" ELSE "idle") /\ UNCHANGED <<tail, nw, rc, nxt, cls, blk, sc, n, prev>>
RU8(t) == pc[t] = "ru8" /\ (IF nw = prev[t] THEN nw' = Nil /\ Go(t, "ru9") ELSE Go(t, "idle") /\ UNCHANGED nw)
          /\ UNCHANGED <<tail, rc, nxt, cls, blk, sc, n, prev>>
RU9(t) == pc[t] = "ru9" /\ blk' = [blk EXCEPT ![prev[t]] = FALSE] /\ Go(t, "idle") /\ UNCHANGED <<tail, nw, rc, nxt, cls, sc, n, prev>>
Next == \E t \in T : \/ Start(t, "r") \/ Start(t, "w") \/ WX(t) \/ W1(t) \/ W2(t) \/ W3(t) \/ W5(t) \/ W6(t) \/ WSpin(t) \/ WU1(t) \/ WU2(t) \/ WU3(t) \/ WU4(t) \/ WU4b(t)
                     \/ RX(t) \/ R1(t) \/ R3(t) \/ R4(t) \/ RSpin(t) \/ R6(t) \/ R7(t) \/ R8(t) \/ R9(t) \/ R10(t) \/ R11(t)
                     \/ RU1(t) \/ RU2(t) \/ RU3(t) \/ RU5(t) \/ RU6(t) \/ RU7(t) \/ RU8(t) \/ RU9(t)
Done == \A t \in T : pc[t] = "idle" /\ n[t] = Ops
Spec == Init /\ [][Next \/ (Done /\ UNCHANGED vars)]_vars
Sym == Permutations(T)
Writing(t) == pc[t] \in {"wcrit"}
Reading(t) == pc[t] \in {"rcrit", "r9", "r10", "r11"}
Exclusive == \A t, u \in T : t # u /\ Writing(t) => ~Writing(u) /\ ~Reading(u)
=============================================================================
