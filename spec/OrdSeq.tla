------------------------------- MODULE OrdSeq -------------------------------
(***************************************************************************)
(* Sequential meaning of the ordered containers (B+-tree map, set,         *)
(* multimap, multiset).  A container is its sequence of <<key, value>>     *)
(* entries in iteration order; a state holds two containers, so that       *)
(* copies, swaps and comparisons can be expressed.  Do(multi, st, e) is    *)
(* the set of [st, r, s] records (next state, scalar results, sequence     *)
(* result) that operation e may have in state st.  Nondeterminism is kept  *)
(* where the containers promise nothing: the place of a new entry among    *)
(* equal keys, and which of several equal entries find / erase_one choose. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Run(m, k) == LET f(x) == x[1] = k IN SelectSeq(m, f)
Below(m, k) == LET f(x) == x[1] < k IN Len(SelectSeq(m, f))
UpTo(m, k) == LET f(x) == x[1] <= k IN Len(SelectSeq(m, f))
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Vals(q) == [i \in 1..Len(q) |-> q[i][2]]
\* the container with the entries of key k replaced by the values vs
Put(m, k, vs) == SubSeq(m, 1, Below(m, k)) \o [i \in 1..Len(vs) |-> <<k, vs[i]>>] \o SubSeq(m, UpTo(m, k) + 1, Len(m))
InsAt(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
DelAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
At(m, i) == IF i > Len(m) THEN <<0>> ELSE <<1, m[i][1], m[i][2]>>
Ent(m, i) == IF i > Len(m) THEN <<-1, -1>> ELSE m[i]

Sorted(m, multi) == \A i \in 1..(Len(m) - 1) : IF multi = 1 THEN m[i][1] <= m[i + 1][1] ELSE m[i][1] < m[i + 1][1]
LexLess(a, b) ==
  LET d == {i \in 1..Len(a) : i <= Len(b) /\ a[i] # b[i]}
  IN IF d = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE x \in d : \A y \in d : x <= y
          IN a[i][1] < b[i][1] \/ (a[i][1] = b[i][1] /\ a[i][2] < b[i][2])
B(x) == IF x THEN 1 ELSE 0

\* the set of containers that inserting the entries q one by one can give
RECURSIVE InsAll(_, _, _)
InsAll(multi, M, q) ==
  IF Len(q) = 0 THEN M
  ELSE LET k == q[1][1]
           v == q[1][2]
       IN InsAll(multi, UNION { IF multi = 1 THEN { Put(m, k, InsAt(Vals(Run(m, k)), i, v)) : i \in 0..Len(Run(m, k)) }
                                ELSE { IF Has(m, k) THEN m ELSE Put(m, k, <<v>>) } : m \in M }, Tail(q))

\* positions visited by a walk: p are the steps +1 / -1 from position i
RECURSIVE Walk(_, _, _)
Walk(m, i, p) == <<Ent(m, i)>> \o (IF Len(p) = 0 THEN <<>> ELSE Walk(m, i + p[1], Tail(p)))

Do(multi, st, e) ==
  LET b == e.b + 1
      m == st[b]
      o == st[3 - b]
      run == Vals(Run(m, e.k))
      set(x) == [st EXCEPT ![b] = x]
      same(r, s) == { [st |-> st, r |-> r, s |-> s] }
  IN CASE e.o = "ins" -> IF multi = 1
                         THEN { [st |-> set(Put(m, e.k, InsAt(run, i, e.v))), r |-> <<1, e.k, e.v>>, s |-> InsAt(run, i, e.v)] : i \in 0..Len(run) }
                         ELSE IF run = <<>> THEN { [st |-> set(Put(m, e.k, <<e.v>>)), r |-> <<1, e.k, e.v>>, s |-> <<e.v>>] }
                              ELSE same(<<0, e.k, run[1]>>, run)
       [] e.o = "idx" -> { [st |-> set(Put(m, e.k, <<e.v>>)), r |-> <<>>, s |-> <<e.v>>] }
       [] e.o = "set" -> \* assignment through an iterator to the j-th entry of the key
                         { [st |-> set(Put(m, e.k, [run EXCEPT ![e.j] = e.v])), r |-> <<>>, s |-> [run EXCEPT ![e.j] = e.v]] }
       [] e.o = "find" -> IF run = <<>> THEN same(<<0>>, <<>>) ELSE UNION { same(<<1, e.k, run[i]>>, <<>>) : i \in 1..Len(run) }
       [] e.o = "has" -> same(<<B(run # <<>>)>>, <<>>)
       [] e.o = "cnt" -> same(<<Len(run)>>, <<>>)
       [] e.o = "lb" -> same(At(m, Below(m, e.k) + 1), <<>>)
       [] e.o = "ub" -> same(At(m, UpTo(m, e.k) + 1), <<>>)
       [] e.o = "eq" -> same(At(m, UpTo(m, e.k) + 1), run)
       [] e.o = "era" -> { [st |-> set(Put(m, e.k, <<>>)), r |-> <<Len(run)>>, s |-> <<>>] }
       [] e.o = "er1" -> IF run = <<>> THEN same(<<0>>, <<>>)
                         ELSE { [st |-> set(Put(m, e.k, DelAt(run, i))), r |-> <<1>>, s |-> DelAt(run, i)] : i \in 1..Len(run) }
       [] e.o = "eri" -> \* erase through an iterator; may return the following position
                         LET n == set(Put(m, e.k, DelAt(run, e.j)))
                         IN { [st |-> n, r |-> x, s |-> DelAt(run, e.j)] : x \in {<<>>, At(n[b], Below(m, e.k) + e.j)} }
       [] e.o = "erg" -> \* erase the interval [k, j)
                         { [st |-> set(SubSeq(m, 1, Below(m, e.k)) \o SubSeq(m, Below(m, e.j) + 1, Len(m))), r |-> <<>>, s |-> <<>>] }
       [] e.o = "put" -> \* upsert
                         { [st |-> set(Put(m, e.k, <<e.v>>)), r |-> <<1>>, s |-> <<>>] }
       [] e.o = "mrg" -> \* read-modify-write: value 0 leaves the entry as it is
                         { [st |-> IF e.v = 0 THEN st ELSE set(Put(m, e.k, <<e.v>>)), r |-> <<IF run = <<>> THEN 0 ELSE run[1]>>, s |-> <<>>] }
       [] e.o = "inp" -> \* the same for existing entries only
                         { [st |-> IF e.v = 0 \/ run = <<>> THEN st ELSE set(Put(m, e.k, <<e.v>>)), r |-> <<IF run = <<>> THEN 0 ELSE run[1]>>, s |-> <<>>] }
       [] e.o = "get" -> same(<<IF run = <<>> THEN 0 ELSE run[1]>>, <<>>)
       [] e.o = "del" -> { [st |-> set(Put(m, e.k, <<>>)), r |-> <<B(run # <<>>)>>, s |-> <<>>] }
       [] e.o = "dlr" -> \* remove the interval [k, j); empty when j <= k
                         IF e.j <= e.k THEN same(<<0>>, <<>>)
                         ELSE { [st |-> set(SubSeq(m, 1, Below(m, e.k)) \o SubSeq(m, Below(m, e.j) + 1, Len(m))), r |-> <<Below(m, e.j) - Below(m, e.k)>>, s |-> <<>>] }
       [] e.o = "fwd" -> same(<<>>, m)
       [] e.o = "bwd" -> same(<<>>, Rev(m))
       [] e.o = "walk" -> same(<<>>, Walk(m, Below(m, e.k) + 1, e.p))
       [] e.o = "size" -> same(<<Len(m), B(m = <<>>)>>, <<>>)
       [] e.o = "clear" -> { [st |-> set(<<>>), r |-> <<>>, s |-> <<>>] }
       [] e.o = "swap" -> { [st |-> <<st[2], st[1]>>, r |-> <<>>, s |-> <<>>] }
       [] e.o = "copy" -> { [st |-> set(o), r |-> <<>>, s |-> <<>>] }
       [] e.o = "bulk" -> { [st |-> set(e.p), r |-> <<>>, s |-> e.p] }
       [] e.o = "inr" -> { [st |-> set(x), r |-> <<>>, s |-> x] : x \in InsAll(multi, {m}, e.p) }
       [] e.o = "eqq" -> same(<<B(m = o)>>, <<>>)
       [] e.o = "less" -> same(<<B(LexLess(m, o)), B(LexLess(o, m))>>, <<>>)
       [] e.o = "chk" -> same(<<>>, <<>>)
=============================================================================
