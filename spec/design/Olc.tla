-------------------------------- MODULE Olc --------------------------------
(***************************************************************************)
(* Optimistic lock coupling in a B+tree (BTreeOLC, the OptiQL trees): one  *)
(* parent with a separator array over leaves that split.  Every read of a  *)
(* version word, a pointer or a node content is a step of its own; torn    *)
(* contents are modelled by splits that take two steps.                    *)
(* Writers (splits and inserts) lock; readers validate.                    *)
(* Defect: "none"; "noparent": the parent is not validated after the child *)
(* was chosen; "late": the version of the leaf is taken after its content  *)
(* was looked at; "novalid": the leaf is not validated; "upgrade": the     *)
(* writer locks whatever version it finds; "nobump": releasing the lock    *)
(* does not change the version; "before": the parent is validated before   *)
(* the version of the child is taken.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, Rd, Wr, Cap, Defect
\* leaf i: version (odd = locked), content; seps: sequence of <<high key, leaf>>, last covers the rest
VARIABLES lv, lc, pv, seps, free, pc, key, sv, sp, ch, got, res, must, mustnot, present, todo
vars == <<lv, lc, pv, seps, free, pc, key, sv, sp, ch, got, res, must, mustnot, present, todo>>
L == 1..4
Keys == 1..K
T == Rd \cup Wr
Init == /\ lv = [i \in L |-> 0] /\ lc = [i \in L |-> {}] /\ pv = 0 /\ seps = <<<<K, 1>>>> /\ free = 2
        /\ pc = [t \in T |-> "idle"] /\ key = [t \in T |-> 1] /\ sv = [t \in T |-> 0] /\ sp = [t \in T |-> 0] /\ ch = [t \in T |-> 1] /\ got = [t \in T |-> FALSE]
        /\ res = [t \in T |-> "none"] /\ must = [t \in T |-> FALSE] /\ mustnot = [t \in T |-> FALSE] /\ present = {} /\ todo = Keys
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
U(s) == UNCHANGED s
Sh == <<lv, lc, pv, seps, free>>
Child(k) == LET i == CHOOSE i \in 1..Len(seps) : k <= seps[i][1] /\ \A j \in 1..(i - 1) : k > seps[j][1] IN seps[i][2]
Odd(x) == x % 2 = 1
\* a lookup must find a key inserted before it began
Start(t) == /\ pc[t] = "idle" /\ res[t] = "none"
            /\ IF t \in Rd THEN \E k \in Keys : key' = [key EXCEPT ![t] = k] /\ must' = [must EXCEPT ![t] = k \in present] /\ U(todo)
               ELSE \E k \in todo : key' = [key EXCEPT ![t] = k] /\ todo' = todo \ {k} /\ U(must)
            /\ Go(t, "p1") /\ U(Sh) /\ U(<<sv, sp, ch, got, res, mustnot, present>>)
P1(t) == pc[t] = "p1" /\ ~Odd(pv) /\ sp' = [sp EXCEPT ![t] = pv] /\ Go(t, "p2") /\ U(Sh) /\ U(<<key, sv, ch, got, res, must, mustnot, present, todo>>)
P2(t) == pc[t] = "p2" /\ ch' = [ch EXCEPT ![t] = Child(key[t])] /\ Go(t, IF Defect = "before" THEN "p4" ELSE IF Defect = "late" THEN "p4" ELSE "p3")
         /\ U(Sh) /\ U(<<key, sv, sp, got, res, must, mustnot, present, todo>>)
P3(t) == pc[t] = "p3" /\ ~Odd(lv[ch[t]]) /\ sv' = [sv EXCEPT ![t] = lv[ch[t]]] /\ Go(t, IF Defect = "before" THEN "l1" ELSE "p4")
         /\ U(Sh) /\ U(<<key, sp, ch, got, res, must, mustnot, present, todo>>)
P4(t) == pc[t] = "p4" /\ Go(t, IF pv # sp[t] /\ Defect # "noparent" THEN "p1" ELSE IF Defect = "before" THEN "p3" ELSE "l1")
         /\ U(Sh) /\ U(<<key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
L1(t) == pc[t] = "l1" /\ t \in Rd /\ got' = [got EXCEPT ![t] = key[t] \in lc[ch[t]]] /\ Go(t, IF Defect = "late" THEN "l1b" ELSE "l2")
         /\ U(Sh) /\ U(<<key, sv, sp, ch, res, must, mustnot, present, todo>>)
L1b(t) == pc[t] = "l1b" /\ ~Odd(lv[ch[t]]) /\ sv' = [sv EXCEPT ![t] = lv[ch[t]]] /\ Go(t, "l2") /\ U(Sh) /\ U(<<key, sp, ch, got, res, must, mustnot, present, todo>>)
L2(t) == /\ pc[t] = "l2" /\ IF lv[ch[t]] # sv[t] /\ Defect # "novalid" THEN Go(t, "p1") /\ U(res)
                            ELSE Go(t, "idle") /\ res' = [res EXCEPT ![t] = IF got[t] THEN "hit" ELSE "miss"]
         /\ U(Sh) /\ U(<<key, sv, sp, ch, got, must, mustnot, present, todo>>)
\* --- writer: full leaf -> split first (locks parent, then leaf), otherwise lock the leaf and add the key
W1(t) == /\ pc[t] = "l1" /\ t \in Wr
         /\ Go(t, IF Cardinality(lc[ch[t]]) >= Cap THEN "s1" ELSE "w2") /\ U(Sh) /\ U(<<key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
W2(t) == /\ pc[t] = "w2" /\ U(<<lc, pv, seps, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
         /\ IF ~Odd(lv[ch[t]]) /\ (lv[ch[t]] = sv[t] \/ Defect \in {"upgrade", "late"}) THEN lv' = [lv EXCEPT ![ch[t]] = @ + 1] /\ Go(t, "w3") ELSE U(lv) /\ Go(t, "p1")
W3(t) == pc[t] = "w3" /\ lc' = [lc EXCEPT ![ch[t]] = @ \cup {key[t]}] /\ Go(t, "w4") /\ U(<<lv, pv, seps, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
Rel(i) == IF Defect = "nobump" THEN lv[i] - 1 ELSE lv[i] + 1
W4(t) == /\ pc[t] = "w4" /\ lv' = [lv EXCEPT ![ch[t]] = Rel(ch[t])] /\ present' = present \cup {key[t]} /\ Go(t, "idle") /\ res' = [res EXCEPT ![t] = "done"]
         /\ U(<<lc, pv, seps, free, key, sv, sp, ch, got, must, mustnot, todo>>)
S1(t) == /\ pc[t] = "s1" /\ U(<<lv, lc, seps, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
         /\ IF ~Odd(pv) /\ (pv = sp[t] \/ Defect = "upgrade") THEN pv' = pv + 1 /\ Go(t, "s2") ELSE U(pv) /\ Go(t, "p1")
S2(t) == /\ pc[t] = "s2" /\ U(<<lc, seps, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
         /\ IF ~Odd(lv[ch[t]]) /\ (lv[ch[t]] = sv[t] \/ Defect \in {"upgrade", "late"}) THEN lv' = [lv EXCEPT ![ch[t]] = @ + 1] /\ Go(t, "s3") /\ U(pv)
            ELSE U(lv) /\ pv' = pv + 1 /\ Go(t, "p1")
Mid(S) == CHOOSE x \in S : Cardinality({y \in S : y <= x}) = (Cardinality(S) + 1) \div 2
\* the upper half leaves the old leaf ...
S3(t) == /\ pc[t] = "s3" /\ LET m == Mid(lc[ch[t]]) IN lc' = [lc EXCEPT ![ch[t]] = {x \in @ : x <= m}, ![free] = {x \in lc[ch[t]] : x > m}]
         /\ sv' = [sv EXCEPT ![t] = free] /\ free' = free + 1 /\ Go(t, "s4") /\ U(<<lv, pv, seps, key, sp, ch, got, res, must, mustnot, present, todo>>)
\* ... and the parent learns about it
S4(t) == /\ pc[t] = "s4" /\ LET i == CHOOSE i \in 1..Len(seps) : seps[i][2] = ch[t]
                                mx == CHOOSE x \in lc[ch[t]] : \A y \in lc[ch[t]] : y <= x
                            IN seps' = SubSeq(seps, 1, i - 1) \o <<<<mx, ch[t]>>, <<seps[i][1], sv[t]>>>> \o SubSeq(seps, i + 1, Len(seps))
         /\ Go(t, "s5") /\ U(<<lv, lc, pv, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
S5(t) == pc[t] = "s5" /\ lv' = [lv EXCEPT ![ch[t]] = Rel(ch[t])] /\ Go(t, "s6") /\ U(<<lc, pv, seps, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
S6(t) == pc[t] = "s6" /\ pv' = (IF Defect = "nobump" THEN pv - 1 ELSE pv + 1) /\ Go(t, "p1") /\ U(<<lv, lc, seps, free, key, sv, sp, ch, got, res, must, mustnot, present, todo>>)
Next == (\E t \in T : Start(t) \/ P1(t) \/ P2(t) \/ P3(t) \/ P4(t) \/ L1(t) \/ L1b(t) \/ L2(t) \/ W1(t) \/ W2(t) \/ W3(t) \/ W4(t)
                     \/ S1(t) \/ S2(t) \/ S3(t) \/ S4(t) \/ S5(t) \/ S6(t))
        \/ (\E t \in Wr : pc[t] = "idle" /\ res[t] = "done" /\ todo # {} /\ res' = [res EXCEPT ![t] = "none"] /\ U(Sh) /\ U(<<pc, key, sv, sp, ch, got, must, mustnot, present, todo>>))
Spec == Init /\ [][Next]_vars
Sym == Permutations(Wr) \cup Permutations(Rd)
\* a key inserted before the lookup began is found, one nobody has begun to insert is not
Found == \A t \in Rd : (res[t] = "miss" => ~must[t]) /\ (res[t] = "hit" => key[t] \notin todo)
\* nothing is lost: when nobody works, the leaf the parent names for a key holds it
Reachable == (\A t \in T : pc[t] = "idle") => \A k \in present : k \in lc[Child(k)]
=============================================================================
