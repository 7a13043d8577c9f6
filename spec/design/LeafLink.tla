------------------------------ MODULE LeafLink ------------------------------
(***************************************************************************)
(* Masstree: leaves in a linked list below an inner node.  A split links   *)
(* the new leaf and then enters it above; a leaf that became empty is      *)
(* marked, taken out of the inner node and out of the list.  Writers that  *)
(* came to a leaf before it split follow the list; the others trust the    *)
(* inner node.                                                             *)
(* Defect: "none"; "early": the empty leaf leaves the list before it has   *)
(* left the inner node (its predecessor takes over and may split at the    *)
(* same bound: the wrong child is dropped); "mark": the empty leaf is not  *)
(* marked; "walk": a writer does not follow the list; "nolock": the split  *)
(* releases the left leaf before the new one is entered above.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, T, Cap, Ops, NL, Defect
VARIABLES lk, con, bnd, nx, dead, spl, used, seps, ch, plk, pc, op, key, cur, sv, new, left, present
vars == <<lk, con, bnd, nx, dead, spl, used, seps, ch, plk, pc, op, key, cur, sv, new, left, present>>
Keys == 1..K
L == 1..NL
Sh == <<lk, con, bnd, nx, dead, spl, used, seps, ch, plk>>
Init == /\ lk = [i \in L |-> "free"] /\ con = [i \in L |-> IF i = 1 THEN {1} ELSE {}]
        /\ bnd = [i \in L |-> 0] /\ nx = [i \in L |-> 0]
        /\ dead = [i \in L |-> FALSE] /\ spl = [i \in L |-> 0] /\ used = 1 /\ seps = <<>> /\ ch = <<1>> /\ plk = "free"
        /\ pc = [t \in T |-> "idle"] /\ op = [t \in T |-> "ins"] /\ key = [t \in T |-> 1] /\ cur = [t \in T |-> 1] /\ sv = [t \in T |-> 0]
        /\ new = [t \in T |-> 0] /\ left = [t \in T |-> Ops] /\ present = {1}
U(s) == UNCHANGED s
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Upper(k) == Cardinality({i \in DOMAIN seps : seps[i] <= k})
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E k \in Keys, o \in {"ins", "rem"} : key' = [key EXCEPT ![t] = k] /\ op' = [op EXCEPT ![t] = o]
            /\ Go(t, "down") /\ U(Sh) /\ U(<<cur, sv, new, present>>)
\* a node that is being split is waited for
Splitting(c) == \E u \in T : pc[u] \in {"enter", "entered"} /\ c \in {cur[u], new[u]} /\ Defect # "nolock"
Down(t) == /\ pc[t] = "down" /\ LET c == ch[Upper(key[t]) + 1] IN ~Splitting(c) /\ cur' = [cur EXCEPT ![t] = c] /\ sv' = [sv EXCEPT ![t] = spl[c]]
           /\ Go(t, "lock") /\ U(Sh) /\ U(<<op, key, new, left, present>>)
Lock(t) == /\ pc[t] = "lock" /\ lk[cur[t]] = "free" /\ lk' = [lk EXCEPT ![cur[t]] = t] /\ Go(t, "chk")
           /\ U(<<con, bnd, nx, dead, spl, used, seps, ch, plk, op, key, cur, sv, new, left, present>>)
Chk(t) == /\ pc[t] = "chk" /\ U(<<con, bnd, nx, dead, spl, used, seps, ch, plk, op, key, new, left, present>>)
          /\ LET c == cur[t] n == nx[c] IN
             IF dead[c] THEN lk' = [lk EXCEPT ![c] = "free"] /\ Go(t, "down") /\ U(<<cur, sv>>)
             ELSE IF spl[c] # sv[t] /\ n # 0 /\ key[t] >= bnd[n] /\ Defect # "walk"
             THEN lk' = [lk EXCEPT ![c] = "free"] /\ Go(t, "lock") /\ cur' = [cur EXCEPT ![t] = n] /\ sv' = [sv EXCEPT ![t] = -1]
             ELSE Go(t, op[t]) /\ U(<<lk, cur, sv>>)
Done(t) == lk' = [lk EXCEPT ![cur[t]] = "free"] /\ Go(t, "idle")
Ins(t) == /\ pc[t] = "ins" /\ LET c == cur[t] k == key[t] IN
             /\ con' = [con EXCEPT ![c] = @ \cup {k}] /\ present' = present \cup {k}
             /\ IF k \notin con[c] /\ Cardinality(con[c]) >= Cap /\ used < NL THEN Go(t, "split") /\ U(lk) ELSE Done(t)
          /\ U(<<bnd, nx, dead, spl, used, seps, ch, plk, op, key, cur, sv, new, left>>)
\* the upper half moves to a new leaf, which is linked into the list; both are locked
Split(t) == /\ pc[t] = "split" /\ LET c == cur[t] m == CHOOSE x \in con[c] : Cardinality({y \in con[c] : y < x}) = Cardinality(con[c]) \div 2 n == used + 1 IN
               /\ used' = n /\ new' = [new EXCEPT ![t] = n] /\ con' = [con EXCEPT ![n] = {x \in con[c] : x >= m}, ![c] = {x \in @ : x < m}]
               /\ bnd' = [bnd EXCEPT ![n] = m] /\ nx' = [nx EXCEPT ![n] = nx[c], ![c] = n] /\ spl' = [spl EXCEPT ![c] = @ + 1]
               /\ lk' = [lk EXCEPT ![n] = t, ![c] = IF Defect = "nolock" THEN "free" ELSE @]
            /\ Go(t, "enter") /\ U(<<dead, seps, ch, plk, op, key, cur, sv, left, present>>)
Enter(t) == /\ pc[t] = "enter" /\ plk = "free" /\ plk' = t /\ Go(t, "entered") /\ U(<<lk, con, bnd, nx, dead, spl, used, seps, ch, op, key, cur, sv, new, left, present>>)
Ent2(t) == /\ pc[t] = "entered" /\ LET n == new[t] p == Upper(bnd[n]) IN
              /\ seps' = SubSeq(seps, 1, p) \o <<bnd[n]>> \o SubSeq(seps, p + 1, Len(seps))
              /\ ch' = SubSeq(ch, 1, p + 1) \o <<n>> \o SubSeq(ch, p + 2, Len(ch))
              /\ lk' = [lk EXCEPT ![n] = "free", ![cur[t]] = IF Defect = "nolock" THEN @ ELSE "free"]
           /\ plk' = "free" /\ Go(t, "idle") /\ U(<<con, bnd, nx, dead, spl, used, op, key, cur, sv, new, left, present>>)
Rem(t) == /\ pc[t] = "rem" /\ LET c == cur[t] k == key[t] IN
             /\ con' = [con EXCEPT ![c] = @ \ {k}] /\ present' = present \ {k}
             /\ IF k \in con[c] /\ con[c] = {k} /\ c # 1
                THEN Go(t, IF Defect = "early" THEN "unlink" ELSE "drop") /\ dead' = [dead EXCEPT ![c] = Defect # "mark"] /\ U(lk)
                ELSE Done(t) /\ U(dead)
          /\ U(<<bnd, nx, spl, used, seps, ch, plk, op, key, cur, sv, new, left>>)
Drop(t) == pc[t] = "drop" /\ plk = "free" /\ plk' = t /\ Go(t, "dropped") /\ U(<<lk, con, bnd, nx, dead, spl, used, seps, ch, op, key, cur, sv, new, left, present>>)
\* the child left of the bound goes, whatever it is
Drop2(t) == /\ pc[t] = "dropped" /\ LET p == Upper(bnd[cur[t]]) IN
               /\ seps' = SubSeq(seps, 1, p - 1) \o SubSeq(seps, p + 1, Len(seps)) /\ ch' = SubSeq(ch, 1, p) \o SubSeq(ch, p + 2, Len(ch))
            /\ plk' = "free" /\ (IF Defect = "early" THEN Done(t) ELSE Go(t, "unlink") /\ U(lk))
            /\ U(<<con, bnd, nx, dead, spl, used, op, key, cur, sv, new, left, present>>)
Unlink(t) == /\ pc[t] = "unlink" /\ nx' = [i \in L |-> IF nx[i] = cur[t] THEN nx[cur[t]] ELSE nx[i]]
             /\ (IF Defect = "early" THEN Go(t, "drop") /\ U(lk) ELSE Done(t))
             /\ U(<<con, bnd, dead, spl, used, seps, ch, plk, op, key, cur, sv, new, left, present>>)
Next == \E t \in T : Start(t) \/ Down(t) \/ Lock(t) \/ Chk(t) \/ Ins(t) \/ Split(t) \/ Enter(t) \/ Ent2(t) \/ Rem(t) \/ Drop(t) \/ Drop2(t) \/ Unlink(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(T)
Idle == \A t \in T : pc[t] = "idle"
\* the dead leaves are neither in the tree nor in the list when nobody is at work
NoDead == Idle => (\A i \in DOMAIN ch : ~dead[ch[i]]) /\ (\A i \in L : ~dead[i] /\ nx[i] # 0 => ~dead[nx[i]])
Sorted == \A i \in 1..Len(seps) - 1 : seps[i] < seps[i + 1]
\* every key that was inserted and not removed is in the leaf the tree leads to, and in no other
Here == Idle => \A k \in Keys : LET c == ch[Upper(k) + 1] IN (k \in present) = (k \in con[c]) /\ \A i \in L : ~dead[i] /\ k \in con[i] => i = c
Listed == Idle => \A i \in 1..Len(ch) - 1 : nx[ch[i]] = ch[i + 1]
=============================================================================
