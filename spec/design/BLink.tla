-------------------------------- MODULE BLink --------------------------------
(***************************************************************************)
(* B-link tree: leaves with a right link and a high key, an index above    *)
(* them that learns about a split after the leaf latch was released.       *)
(* Readers walk right as long as the key lies beyond the high key of the   *)
(* node; writers do the same with latches.                                 *)
(* Defect: "none"; "onestep": the search moves right at most once;         *)
(* "noright": the writer does not look at the high key after it has        *)
(* latched; "order": the left half loses its keys before the link to the   *)
(* new node is set and without a latch; "retry": the reader does not       *)
(* validate what it read; "lost": the index update replaces the entry of   *)
(* a concurrent split.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, Rd, Wr, Cap, Defect
VARIABLES lk, ver, con, hi, rt, used, idx, pc, key, cur, sv, got, stp, res, must, present, todo, bg
vars == <<lk, ver, con, hi, rt, used, idx, pc, key, cur, sv, got, stp, res, must, present, todo, bg>>
L == 1..4
Inf == 99
Keys == 1..K
T == Rd \cup Wr
Init == /\ lk = [i \in L |-> "free"] /\ ver = [i \in L |-> 0] /\ con = [i \in L |-> {}] /\ hi = [i \in L |-> Inf] /\ rt = [i \in L |-> 0] /\ used = 1
        /\ idx = {<<0, 1>>} /\ pc = [t \in T |-> "idle"] /\ key = [t \in T |-> 1] /\ cur = [t \in T |-> 1] /\ sv = [t \in T |-> 0]
        /\ got = [t \in T |-> FALSE] /\ stp = [t \in T |-> 0] /\ res = [t \in T |-> "none"] /\ must = [t \in T |-> FALSE] /\ present = {} /\ todo = Keys
        /\ bg = [t \in T |-> <<0, 0>>]
U(s) == UNCHANGED s
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Sh == <<lk, ver, con, hi, rt, used, idx>>
\* the index maps a lower bound to a leaf
Look(k) == LET e == CHOOSE e \in idx : e[1] < k /\ \A f \in idx : f[1] < k => f[1] <= e[1] IN e[2]
Start(t) == /\ pc[t] = "idle" /\ res[t] = "none"
            /\ IF t \in Rd THEN \E k \in Keys : key' = [key EXCEPT ![t] = k] /\ must' = [must EXCEPT ![t] = k \in present] /\ U(todo)
               ELSE \E k \in todo : key' = [key EXCEPT ![t] = k] /\ todo' = todo \ {k} /\ U(must)
            /\ Go(t, "down") /\ stp' = [stp EXCEPT ![t] = 0] /\ U(Sh) /\ U(<<cur, sv, got, res, present, bg>>)
Down(t) == pc[t] = "down" /\ cur' = [cur EXCEPT ![t] = Look(key[t])] /\ Go(t, IF t \in Rd THEN "rv" ELSE "latch") /\ U(Sh) /\ U(<<key, sv, got, stp, res, must, present, todo, bg>>)
\* --- reader: version, high key or content, version again
Rv(t) == pc[t] = "rv" /\ lk[cur[t]] = "free" /\ sv' = [sv EXCEPT ![t] = ver[cur[t]]] /\ Go(t, "rhi") /\ U(Sh) /\ U(<<key, cur, got, stp, res, must, present, todo, bg>>)
Rhi(t) == /\ pc[t] = "rhi"
          /\ IF key[t] > hi[cur[t]] /\ ~(Defect = "onestep" /\ stp[t] = 1) THEN Go(t, "rgo") ELSE Go(t, "rcon")
          /\ U(Sh) /\ U(<<key, cur, sv, got, stp, res, must, present, todo, bg>>)
Rgo(t) == /\ pc[t] = "rgo" /\ Go(t, "rv") /\ stp' = [stp EXCEPT ![t] = 1]
          /\ cur' = [cur EXCEPT ![t] = IF rt[cur[t]] = 0 THEN @ ELSE rt[@]] /\ U(Sh) /\ U(<<key, sv, got, res, must, present, todo, bg>>)
Rcon(t) == pc[t] = "rcon" /\ got' = [got EXCEPT ![t] = key[t] \in con[cur[t]]] /\ Go(t, "rchk") /\ U(Sh) /\ U(<<key, cur, sv, stp, res, must, present, todo, bg>>)
Rchk(t) == /\ pc[t] = "rchk"
           /\ IF (ver[cur[t]] # sv[t] \/ lk[cur[t]] # "free") /\ Defect # "retry" THEN Go(t, "rv") /\ U(res)
              ELSE Go(t, "idle") /\ res' = [res EXCEPT ![t] = IF got[t] THEN "hit" ELSE "miss"]
           /\ U(Sh) /\ U(<<key, cur, sv, got, stp, must, present, todo, bg>>)
\* --- writer
Latch(t) == pc[t] = "latch" /\ lk[cur[t]] = "free" /\ lk' = [lk EXCEPT ![cur[t]] = t] /\ Go(t, "move") /\ U(<<ver, con, hi, rt, used, idx, key, cur, sv, got, stp, res, must, present, todo, bg>>)
Move(t) == /\ pc[t] = "move" /\ U(<<ver, con, hi, rt, used, idx, key, sv, got, res, must, present, todo, bg>>)
           /\ IF key[t] > hi[cur[t]] /\ Defect # "noright" /\ ~(Defect = "onestep" /\ stp[t] = 1)
              THEN lk' = [lk EXCEPT ![cur[t]] = "free"] /\ cur' = [cur EXCEPT ![t] = rt[@]] /\ Go(t, "latch") /\ stp' = [stp EXCEPT ![t] = 1]
              ELSE U(<<lk, cur, stp>>) /\ Go(t, "put")
Put(t) == /\ pc[t] = "put" /\ con' = [con EXCEPT ![cur[t]] = @ \cup {key[t]}]
          /\ Go(t, IF Cardinality(con[cur[t]]) + 1 > Cap /\ used < 4 THEN "split" ELSE "rel") /\ U(<<lk, ver, hi, rt, used, idx, key, cur, sv, got, stp, res, must, present, todo, bg>>)
Mid(S) == CHOOSE x \in S : Cardinality({y \in S : y <= x}) = (Cardinality(S) + 1) \div 2
\* the new node is filled and linked, then the old one shrinks (two steps)
Split(t) == /\ pc[t] = "split" /\ LET o == cur[t] m == Mid(con[o]) N == used + 1 IN
              /\ used' = N /\ con' = [con EXCEPT ![N] = {x \in con[o] : x > m}, ![o] = IF Defect = "order" THEN {x \in @ : x <= m} ELSE @]
              /\ hi' = [hi EXCEPT ![N] = hi[o]] /\ rt' = [rt EXCEPT ![N] = rt[o]] /\ bg' = [bg EXCEPT ![t] = <<m, N>>]
              /\ (IF Defect = "order" THEN lk' = [lk EXCEPT ![o] = "free"] ELSE U(lk))
            /\ Go(t, "split2") /\ U(<<ver, idx, key, cur, sv, got, stp, res, must, present, todo>>)
Split2(t) == /\ pc[t] = "split2" /\ LET o == cur[t] m == bg[t][1] IN
               con' = [con EXCEPT ![o] = {x \in @ : x <= m}] /\ hi' = [hi EXCEPT ![o] = m] /\ rt' = [rt EXCEPT ![o] = bg[t][2]]
             /\ Go(t, "rel") /\ U(<<lk, ver, used, idx, key, cur, sv, got, stp, res, must, present, todo, bg>>)
Rel(t) == /\ pc[t] = "rel" /\ lk' = [lk EXCEPT ![cur[t]] = "free"] /\ ver' = [ver EXCEPT ![cur[t]] = @ + 1] /\ present' = present \cup {key[t]}
          /\ Go(t, IF bg[t][2] # 0 THEN "post" ELSE "idle") /\ res' = [res EXCEPT ![t] = "done"] /\ U(<<con, hi, rt, used, idx, key, cur, sv, got, stp, must, todo, bg>>)
Post(t) == /\ pc[t] = "post" /\ idx' = (IF Defect = "lost" THEN {e \in idx : e[1] < bg[t][1]} ELSE idx) \cup {bg[t]} /\ bg' = [bg EXCEPT ![t] = <<0, 0>>]
           /\ Go(t, "idle") /\ U(<<lk, ver, con, hi, rt, used, key, cur, sv, got, stp, res, must, present, todo>>)
Again(t) == pc[t] = "idle" /\ res[t] = "done" /\ todo # {} /\ res' = [res EXCEPT ![t] = "none"] /\ U(Sh) /\ U(<<pc, key, cur, sv, got, stp, must, present, todo, bg>>)
Next == (\E t \in Rd : Start(t) \/ Down(t) \/ Rv(t) \/ Rhi(t) \/ Rgo(t) \/ Rcon(t) \/ Rchk(t))
        \/ (\E t \in Wr : Start(t) \/ Down(t) \/ Latch(t) \/ Move(t) \/ Put(t) \/ Split(t) \/ Split2(t) \/ Rel(t) \/ Post(t) \/ Again(t))
Spec == Init /\ [][Next]_vars
Sym == Permutations(Wr) \cup Permutations(Rd)
Found == \A t \in Rd : (res[t] = "miss" => ~must[t]) /\ (res[t] = "hit" => key[t] \notin todo)
RECURSIVE Walk(_, _)
Walk(i, k) == IF k > hi[i] /\ rt[i] # 0 THEN Walk(rt[i], k) ELSE i
Reachable == (\A t \in T : pc[t] = "idle") => \A k \in present : k \in con[Walk(Look(k), k)]
\* the leaves partition the keys in order
Ordered == (\A i \in L : lk[i] = "free") /\ (\A t \in T : pc[t] \notin {"split2"}) => \A i \in 1..used : (\A k \in con[i] : k <= hi[i]) /\ (rt[i] # 0 => \A k \in con[rt[i]] : k > hi[i])
=============================================================================
