------------------------------- MODULE ObjSeq -------------------------------
(***************************************************************************)
(* Sequential meaning of the other containers: priority queues, the LRU    *)
(* cache, the ring buffer, the splay tree, loser trees and static search   *)
(* trees.  Do(x, st, e): x is the header of the history (object kind and   *)
(* parameters), the result is the set of [st, r, s] records e may have.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

B(x) == IF x THEN 1 ELSE 0
DelAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Idx(q, k) == {i \in 1..Len(q) : q[i][1] = k}
out(st, r, s) == [st |-> st, r |-> r, s |-> s]

(* --- priority queues: the state is a set of <<id, priority>>, smaller is better ------------- *)
Prio(q, id) == (CHOOSE x \in q : x[1] = id)[2]
IsIn(q, id) == \E x \in q : x[1] = id
Mins(q) == {x \in q : \A y \in q : x[2] <= y[2]}
Over(q, l) == {<<x[1], IF \E i \in 1..Len(l) : l[i][1] = x[1] THEN l[CHOOSE i \in 1..Len(l) : l[i][1] = x[1]][2] ELSE x[2]>> : x \in q}
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
DoPq(q, e) ==
  CASE e.o = "push" -> {out(q \cup {<<e.k, e.v>>}, <<>>, <<>>)}
    [] e.o = "top" -> {out(q, x, <<>>) : x \in Mins(q)}
    [] e.o = "peak" -> {out(q, <<x[2]>>, <<>>) : x \in Mins(q)}
    [] e.o = "pop" -> {out(q \ {x}, x, <<>>) : x \in Mins(q)}
    [] e.o = "popn" -> {out(q \ {x}, <<>>, <<>>) : x \in Mins(q)}                    \* which one is not reported
    [] e.o = "bucket" -> {out(q \ Mins(q), <<Prio(Mins(q), e.s[1])>>, e.s) : i \in {j \in {1} : Ascending(e.s) /\ {e.s[j2] : j2 \in 1..Len(e.s)} = {x[1] : x \in Mins(q)}}}
    [] e.o = "size" -> {out(q, <<Cardinality(q), B(q = {})>>, <<>>)}
    [] e.o = "clear" -> {out({}, <<>>, <<>>)}
    [] e.o = "build" -> {out({e.p[i] : i \in 1..Len(e.p)}, <<>>, <<>>)}
    [] e.o = "all" -> {out(Over(q, e.p), <<>>, <<>>)}                                \* priorities change, then update_all
    [] e.o = "upd" -> {out({x \in q : x[1] # e.k} \cup {<<e.k, e.v>>}, <<>>, <<>>)}  \* changed or added
    [] e.o = "rem" -> {out({x \in q : x[1] # e.k}, <<>>, <<>>)}
    [] e.o = "has" -> {out(q, <<B(IsIn(q, e.k))>>, <<>>)}
    [] e.o = "chk" -> {out(q, <<1>>, <<>>)}

(* --- LRU cache: <<key, value>> from most to least recently used -------------------------------- *)
DoLru(q, e) ==
  LET I == Idx(q, e.k)
      i == CHOOSE j \in I : TRUE
      front == IF I = {} THEN q ELSE <<q[i]>> \o DelAt(q, i)
  IN CASE e.o = "put" -> {out(<<<<e.k, e.v>>>> \o (IF I = {} THEN q ELSE DelAt(q, i)), <<>>, <<>>)}
       [] e.o = "touch" -> {out(front, <<B(I # {})>>, <<>>)}
       [] e.o = "erase" -> {out(IF I = {} THEN q ELSE DelAt(q, i), <<B(I # {})>>, <<>>)}
       [] e.o = "has" -> {out(q, <<B(I # {})>>, <<>>)}
       [] e.o = "get" -> {out(q, IF I = {} THEN <<0>> ELSE <<1, q[i][2]>>, <<>>)}
       [] e.o = "gett" -> {out(front, IF I = {} THEN <<0>> ELSE <<1, q[i][2]>>, <<>>)}
       [] e.o = "pop" -> {out(SubSeq(q, 1, Len(q) - 1), q[Len(q)], <<>>)}
       [] e.o = "size" -> {out(q, <<Len(q), B(q = <<>>)>>, <<>>)}
       [] e.o = "clear" -> {out(<<>>, <<>>, <<>>)}

(* --- ring buffer -------------------------------------------------------------------------------- *)
DoRing(st, e) ==
  LET q == st[e.b + 1]
      set(x) == [st EXCEPT ![e.b + 1] = x]
  IN CASE e.o = "pb" -> {out(set(Append(q, e.v)), <<>>, <<>>)}
       [] e.o = "pf" -> {out(set(<<e.v>> \o q), <<>>, <<>>)}
       [] e.o = "popf" -> {out(set(Tail(q)), <<>>, <<>>)}
       [] e.o = "popb" -> {out(set(SubSeq(q, 1, Len(q) - 1)), <<>>, <<>>)}
       [] e.o = "at" -> {out(st, <<q[e.k + 1]>>, <<>>)}
       [] e.o = "put" -> {out(set([q EXCEPT ![e.k + 1] = e.v]), <<>>, <<>>)}
       [] e.o = "ends" -> {out(st, <<q[1], q[Len(q)]>>, <<>>)}
       [] e.o = "size" -> {out(st, <<Len(q), B(q = <<>>)>>, <<>>)}
       [] e.o = "all" -> {out(st, <<>>, q)}
       [] e.o = "take" -> {out(set(<<>>), <<>>, q)}                                   \* move_to
       [] e.o = "clear" -> {out(set(<<>>), <<>>, <<>>)}
       [] e.o = "copy" -> {out(set(st[2 - e.b]), <<>>, <<>>)}
       [] e.o = "move" -> {out(IF e.b = 0 THEN <<st[2], <<>>>> ELSE << <<>>, st[1]>>, <<>>, <<>>)}
       [] e.o = "swap" -> {out(<<st[2], st[1]>>, <<>>, <<>>)}
       [] e.o = "live" -> {out(st, <<Len(st[1]) + Len(st[2]), 1>>, <<>>)}            \* element objects alive; none used outside its lifetime

(* --- splay tree: ascending sequence of keys ------------------------------------------------------ *)
DoSplay(multi, q, e) ==
  LET lo == Cardinality({i \in 1..Len(q) : q[i] < e.k})
      hi == Cardinality({i \in 1..Len(q) : q[i] <= e.k})
      p == hi > lo
  IN CASE e.o = "ins" -> IF p /\ multi = 0 THEN {out(q, <<0>>, <<>>)} ELSE {out(SubSeq(q, 1, lo) \o <<e.k>> \o SubSeq(q, lo + 1, Len(q)), <<1>>, <<>>)}
       [] e.o = "era" -> IF p THEN {out(DelAt(q, lo + 1), <<1>>, <<>>)} ELSE {out(q, <<0>>, <<>>)}
       [] e.o = "has" -> {out(q, <<B(p)>>, <<>>)}
       [] e.o = "find" -> \* the key itself, or a neighbour of it when it is absent
                          IF q = <<>> THEN {out(q, <<>>, <<>>)} ELSE IF p THEN {out(q, <<e.k>>, <<>>)}
                          ELSE {out(q, <<q[i]>>, <<>>) : i \in {lo, lo + 1} \cap (1..Len(q))}
       [] e.o = "fwd" -> {out(q, <<1>>, q)}
       [] e.o = "size" -> {out(q, <<Len(q), B(q = <<>>)>>, <<>>)}
       [] e.o = "clear" -> {out(<<>>, <<>>, <<>>)}

(* --- loser tree: heads of the sorted input sequences; stable means lowest source on ties ---------- *)
DoLoser(stable, st, e) ==
  LET src == {i \in 1..Len(st) : st[i] # <<>>}
      best == {i \in src : \A j \in src : st[i][1] < st[j][1] \/ (st[i][1] = st[j][1] /\ (stable = 0 \/ i <= j))}
  IN CASE e.o = "init" -> {out(e.p, <<>>, <<>>)}
       [] e.o = "min" -> {out([st EXCEPT ![i] = Tail(st[i])], <<i - 1, st[i][1]>>, <<>>) : i \in best}

(* --- static search tree: values bracketing the probe in a sorted array of <<key, value>> ---------- *)
DoFast(q, e) ==
  LET n == Cardinality({i \in 1..Len(q) : q[i][1] <= e.k})
  IN CASE e.o = "init" -> {out(e.p, <<>>, <<>>)}
       [] e.o = "look" -> {out(q, <<IF n = 0 THEN 0 ELSE q[n][2], IF n = Len(q) THEN -1 ELSE q[n + 1][2]>>, <<>>)}

Start(x) == CASE x.obj = "pq" -> { {} }
              [] x.obj = "ring" -> {<< <<>>, <<>> >>}
              [] OTHER -> { <<>> }
Do(x, st, e) == CASE x.obj = "pq" -> DoPq(st, e)
                  [] x.obj = "lru" -> DoLru(st, e)
                  [] x.obj = "ring" -> DoRing(st, e)
                  [] x.obj = "splay" -> DoSplay(x.multi, st, e)
                  [] x.obj = "loser" -> DoLoser(x.stable, st, e)
                  [] x.obj = "fast" -> DoFast(st, e)
=============================================================================
