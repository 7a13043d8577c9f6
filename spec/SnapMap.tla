------------------------------ MODULE SnapMap ------------------------------
(***************************************************************************)
(* A concurrent ordered map whose range scans are atomic: an operation -   *)
(* point operation or scan - takes effect at one instant between its call  *)
(* and its return.  (The B-link tree keeps every visited leaf latched      *)
(* until its scan ends, so its scans return a snapshot.)                   *)
(* The operators below construct the set of all <<contents, {<<thread,     *)
(* result>>}>> configurations the recorded calls and returns allow.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, KeyOps

NoOp == [o |-> "none"]
IsScan(p) == p.o \in {"snap", "rsnap"}

\* the first lim present keys of [lo, hi), ascending
RECURSIVE Up(_, _, _, _)
Up(m, k, hi, lim) == IF k >= hi \/ lim = 0 THEN <<>>
                     ELSE IF m[k] = 0 THEN Up(m, k + 1, hi, lim)
                     ELSE <<<<k, m[k]>>>> \o Up(m, k + 1, hi, lim - 1)
\* the first lim present keys of [lo, hi), descending from hi - 1
RECURSIVE Down(_, _, _, _)
Down(m, lo, k, lim) == IF k < lo \/ lim = 0 THEN <<>>
                       ELSE IF m[k] = 0 THEN Down(m, lo, k - 1, lim)
                       ELSE <<<<k, m[k]>>>> \o Down(m, lo, k - 1, lim - 1)

Step(p, m) ==
  CASE p.o = "snap"  -> {<<m, Up(m, p.k, p.hi, p.v)>>}
    [] p.o = "rsnap" -> {<<m, Down(m, p.k, p.hi - 1, p.v)>>}
    [] OTHER -> {<<[m EXCEPT ![p.k] = a[1]], a[2]>> : a \in Apply(p.o, p.v, m[p.k])}

RECURSIVE Close(_, _)
Close(P, S) ==
  LET N == S \cup UNION { UNION { { <<a[1], c[2] \cup {<<t, a[2]>>}>> : a \in Step(P[t], c[1]) } :
                                  t \in {u \in DOMAIN P : P[u] # NoOp /\ \A x \in c[2] : x[1] # u} } : c \in S }
  IN IF N = S THEN S ELSE Close(P, N)

Drop(c, t) == <<c[1], {x \in c[2] : x[1] # t}>>
Ret(P, C, t, r) == {Drop(c, t) : c \in {d \in Close(P, C) : \E x \in d[2] : x[1] = t /\ (r = Nothing \/ x[2] = r)}}
RetScan(P, C, t, s) == {Drop(c, t) : c \in {d \in Close(P, C) : <<t, s>> \in d[2]}}
Final(P, C, m) == {c \in Close(P, C) : \A k \in DOMAIN c[1] : c[1][k] = m[k + 1]}
=============================================================================
