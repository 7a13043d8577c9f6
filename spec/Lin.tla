--------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* The set-of-configurations construction that makes ConcMap decidable on  *)
(* a history in one pass.  Linearizability is local, so each key keeps its *)
(* own set of configurations <<current value, {<<thread, result>> of the   *)
(* pending operations that have already taken effect on this key}>>.       *)
(* A history is a behaviour of ConcMap iff no key's set becomes empty.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, KeyOps

NoOp == [o |-> "none"]
ScanOps == {"scan", "rscan", "part", "rpart", "part1"}
\* scan: ascending over [k, hi), at most v results; rscan: the same, descending
\* part / rpart: may stop early after any number of results (bounded batches)
\* part1: may stop early, but not before its first result
IsScan(p) == p.o \in ScanOps
\* delr: removes every key of [k, hi), each at some instant, and returns how many it removed
IsMulti(p) == p.o = "delr"
IsRange(p) == IsScan(p) \/ IsMulti(p)
KeyOp(p) == IF IsScan(p) THEN "get" ELSE IF IsMulti(p) THEN "rem" ELSE p.o
IsRev(p) == p.o \in {"rscan", "rpart"}
IsPart(p) == p.o \in {"part", "rpart", "part1"}
Touches(p, k) == IF p.o = "none" THEN FALSE ELSE IF IsRange(p) THEN p.k <= k /\ k < p.hi ELSE p.k = k

\* all configurations reachable by letting pending operations take effect on key k
RECURSIVE Close(_, _, _)
Close(P, k, S) ==
  LET act == {t \in DOMAIN P : Touches(P[t], k)}
      N == S \cup UNION { UNION { { <<a[1], c[2] \cup {<<t, a[2]>>}>> :
                                      a \in Apply(KeyOp(P[t]), P[t].v, c[1]) } :
                                  t \in {u \in act : \A x \in c[2] : x[1] # u} } : c \in S }
  IN IF N = S THEN S ELSE Close(P, k, N)

Drop(c, t) == <<c[1], {x \in c[2] : x[1] # t}>>

RetPoint(P, C, t, r) ==
  LET k == P[t].k
      S == Close(P, k, C[k])
  IN [C EXCEPT ![k] = {Drop(c, t) : c \in {d \in S : \E x \in d[2] : x[1] = t /\ (r = Nothing \/ x[2] = r)}}]

\* --- range removal: the keys are independent, so the counts that can be explained are an interval -----
RetMulti(P, C, t, r) ==
  LET p == P[t]
      ks == {k \in DOMAIN C : Touches(p, k)}
      D == [k \in ks |-> {c \in Close(P, k, C[k]) : \E x \in c[2] : x[1] = t}]
      lo == Cardinality({k \in ks : \A c \in D[k] : <<t, 0>> \notin c[2]})
      hi == Cardinality({k \in ks : \E c \in D[k] : <<t, 1>> \in c[2]})
      pick(k, v) == LET s == {c \in D[k] : <<t, v>> \in c[2]} IN IF s = {} THEN D[k] ELSE s
  IN [k \in DOMAIN C |-> IF k \notin ks THEN C[k]
                          ELSE IF r < lo \/ r > hi THEN {}
                          ELSE {Drop(c, t) : c \in IF r = lo THEN pick(k, 0) ELSE IF r = hi THEN pick(k, 1) ELSE D[k]}]

\* --- scans ---------------------------------------------------------------
Sorted(s, rev) == \A i \in 1..(Len(s) - 1) : IF rev THEN s[i][1] > s[i + 1][1] ELSE s[i][1] < s[i + 1][1]
InRange(p, s) == \A i \in 1..Len(s) : p.k <= s[i][1] /\ s[i][1] < p.hi
ScanShape(p, s) == Sorted(s, IsRev(p)) /\ InRange(p, s) /\ Len(s) <= p.v
\* keys about which the result says something
Covered(p, s) ==
  IF Len(s) = p.v \/ (IsPart(p) /\ ~(p.o = "part1" /\ Len(s) = 0))
  THEN IF Len(s) = 0 THEN {}
       ELSE IF IsRev(p) THEN s[Len(s)][1]..(p.hi - 1) ELSE p.k..s[Len(s)][1]
  ELSE p.k..(p.hi - 1)
SeenIn(s, k) == IF \E i \in 1..Len(s) : s[i][1] = k THEN (CHOOSE i \in 1..Len(s) : s[i][1] = k) ELSE 0
RetScan(P, C, t, s) ==
  LET p == P[t]
      cov == Covered(p, s)
  IN [k \in DOMAIN C |->
        IF ~Touches(p, k) THEN C[k]
        ELSE IF k \in cov
        THEN LET i == SeenIn(s, k)
                 v == IF i = 0 THEN 0 ELSE s[i][2]
             IN {Drop(c, t) : c \in {d \in Close(P, k, C[k]) : <<t, v>> \in d[2]}}
        ELSE {Drop(c, t) : c \in C[k]}]

\* quiescent read of all keys
Final(P, C, m) == [k \in DOMAIN C |-> {c \in Close(P, k, C[k]) : c[1] = m[k + 1]}]
Alive(C) == \A k \in DOMAIN C : C[k] # {}
=============================================================================
