------------------------------ MODULE SyncObj ------------------------------
(***************************************************************************)
(* Synchronisation objects: counting semaphore, thread barrier, thread     *)
(* pool and reference counted pointers.  Each is a state machine whose     *)
(* operations are called, take effect at some instant, and return; the     *)
(* thread pool also takes hidden steps of its own (a worker picks up a job,*)
(* a finished job is counted).                                             *)
(*                                                                         *)
(* A configuration is [x |-> state, p |-> pending call of each thread,     *)
(* d |-> result of the pending calls that have taken effect].              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [o |-> "none"]
Thr == 0..8
Undone == -999999
Range(q) == {q[i] : i \in 1..Len(q)}

InitX(H) ==
  CASE H.kind = "sem" -> [v |-> H.n]
    [] H.kind = "barrier" -> [n |-> [t \in 1..H.n |-> 0], b |-> 0, e |-> 0]
    [] H.kind = "pool" -> [q |-> <<>>, p |-> {}, run |-> {}, e |-> {}, dead |-> {}, enq |-> {}, cnt |-> 0, term |-> FALSE, sz |-> H.n,
                           tids |-> {}, inits |-> {}]
    [] H.kind = "refs" -> [s |-> [k \in 0..(H.n - 1) |-> 0], nx |-> <<>>, dead |-> {}, made |-> {}]

\* --- semaphore: v tokens -------------------------------------------------
EffSem(op, x) ==
  CASE op.o = "sig" -> {<<x.v + op.k, [x EXCEPT !.v = @ + op.k]>>}
    [] op.o = "wait" -> IF x.v >= op.k + op.v THEN {<<x.v - op.k, [x EXCEPT !.v = @ - op.k]>>} ELSE {}
    [] op.o = "try" -> IF x.v >= op.k + op.v THEN {<<1, [x EXCEPT !.v = @ - op.k]>>} ELSE {<<0, x>>}
    [] op.o = "val" -> {<<x.v, x>>}

\* --- barrier: a thread leaves round i only when all have entered it and the round's function has run
EffBar(t, op, x) ==
  CASE op.o = "bwait" -> IF x.e >= x.n[t] THEN {<<0, x>>} ELSE {}
    [] op.o = "step" -> {<<x.e % 2, x>>}

\* --- thread pool ---------------------------------------------------------
Busy(x) == x.p \cup x.run \cup x.e
EffPool(op, x) ==
  CASE op.o = "enq" -> {<<0, [x EXCEPT !.q = Append(@, op.k), !.enq = @ \cup {op.k}]>>}
    [] op.o = "lue" -> IF x.q = <<>> /\ Busy(x) = {} THEN {<<0, x>>} ELSE {}
    [] op.o = "lut" -> IF x.term /\ Busy(x) = {} THEN {<<0, x>>} ELSE {}
    [] op.o = "term" -> {<<0, [x EXCEPT !.term = TRUE]>>}
    [] op.o = "done" -> {<<x.cnt, x>>}
    [] op.o = "size" -> {<<x.sz, x>>}
    [] op.o = "idle" -> {<<i, x>> : i \in 0..(x.sz - Cardinality(Busy(x)))}
    [] op.o = "hasidle" -> {<<i, x>> : i \in IF Cardinality(Busy(x)) = x.sz THEN {0} ELSE {0, 1}}
    [] op.o = "dtor" -> IF x.term /\ Busy(x) = {} THEN {<<0, x>>} ELSE {}
StepPool(c) ==
  LET x == c.x IN
  (IF x.q # <<>> /\ ~x.term /\ Cardinality(Busy(x)) < x.sz
   THEN {[c EXCEPT !.x.q = Tail(@), !.x.p = @ \cup {Head(x.q)}]} ELSE {})
  \cup {[c EXCEPT !.x.e = @ \ {j}, !.x.cnt = @ + 1] : j \in x.e \cap x.dead}
  \cup (IF ~x.term /\ \E t \in Thr : c.p[t].o = "dtor" THEN {[c EXCEPT !.x.term = TRUE]} ELSE {})

\* --- reference counted pointers: slot k refers to object s[k], 0 is null; a live object o may itself hold
\* a pointer, to nx[o]
Next1(x, o) == IF o \in DOMAIN x.nx THEN x.nx[o] ELSE 0
Link(x, o, q) == (o :> q) @@ x.nx
Refs(x, o) == Cardinality({k \in DOMAIN x.s : x.s[k] = o}) + Cardinality({m \in x.made \ x.dead : Next1(x, m) = o})
EffRefs(op, x, single) ==
  LET s == x.s IN
  CASE op.o = "mk" -> {<<0, [x EXCEPT !.s[op.k] = op.v, !.made = @ \cup {op.v}]>>}
    [] op.o = "cp" -> {<<0, [x EXCEPT !.s[op.k] = s[op.v]]>>}
    \* moving between two pointers to the same object may leave the source as it is
    [] op.o = "mv" -> {<<0, [x EXCEPT !.s = [s EXCEPT ![op.v] = 0, ![op.k] = s[op.v]]]>>}
                      \cup (IF s[op.v] = s[op.k] THEN {<<0, x>>} ELSE {})
    [] op.o = "mc" -> {<<0, [x EXCEPT !.s = [s EXCEPT ![op.v] = 0, ![op.k] = s[op.v]]]>>}
    [] op.o = "rs" -> {<<0, [x EXCEPT !.s[op.k] = 0]>>}
    [] op.o = "sw" -> {<<0, [x EXCEPT !.s = [s EXCEPT ![op.k] = s[op.v], ![op.v] = s[op.k]]]>>}
    [] op.o = "get" -> {<<s[op.k], x>>}
    [] op.o = "lk" -> {<<0, [x EXCEPT !.nx = Link(x, s[op.k], s[op.v])]>>}
    [] op.o = "nxt" -> {<<0, [x EXCEPT !.s[op.k] = Next1(x, s[op.k])]>>}
    [] op.o = "nxm" -> {<<0, [x EXCEPT !.s[op.k] = Next1(x, s[op.k]), !.nx = Link(x, s[op.k], 0)]>>}
                       \cup (IF Next1(x, s[op.k]) = s[op.k] THEN {<<0, x>>} ELSE {})
    [] op.o = "uc" -> {<<Refs(x, s[op.k]), x>>}
    [] op.o = "uniq" -> {<<IF s[op.k] # 0 /\ Refs(x, s[op.k]) = 1 THEN 1 ELSE 0, x>>}
    [] op.o = "eq" -> {<<IF s[op.k] = s[op.v] THEN 1 ELSE 0, x>>}
    [] op.o = "unify" ->
         (IF s[op.k] # 0 /\ (Refs(x, s[op.k]) > 1 \/ ~single) THEN {<<1, [x EXCEPT !.s[op.k] = op.v, !.made = @ \cup {op.v}]>>} ELSE {})
         \cup (IF s[op.k] = 0 \/ Refs(x, s[op.k]) = 1 THEN {<<0, x>>} ELSE {})

Eff(H, t, op, x) ==
  CASE H.kind = "sem" -> EffSem(op, x)
    [] H.kind = "barrier" -> EffBar(t, op, x)
    [] H.kind = "pool" -> EffPool(op, x)
    [] H.kind = "refs" -> EffRefs(op, x, H.thr = 1)

\* --- hidden steps ---------------------------------------------------------
Silent(H, c) ==
  UNION {{[c EXCEPT !.x = a[2], !.d[t] = a[1]] : a \in Eff(H, t, c.p[t], c.x)} : t \in {u \in Thr : c.p[u].o # "none" /\ c.d[u] = Undone}}
  \cup (IF H.kind = "pool" THEN StepPool(c) ELSE {})
RECURSIVE Grow(_, _, _)
Grow(H, S, F) == IF F = {} THEN S ELSE LET N == UNION {Silent(H, c) : c \in F} \ S IN Grow(H, S \cup N, N)
Closure(H, S) == Grow(H, S, S)

\* --- observable events ----------------------------------------------------
Start(H) == {[x |-> InitX(H), p |-> [t \in Thr |-> None], d |-> [t \in Thr |-> Undone]]}
CallE(H, c, e) ==
  IF c.p[e.t].o # "none" THEN {}
  ELSE {[c EXCEPT !.p[e.t] = e, !.x = IF H.kind = "barrier" /\ e.o = "bwait" THEN [c.x EXCEPT !.n[e.t] = @ + 1] ELSE c.x]}
Tidy(H, x) == \* with a single thread an object goes away together with its last reference
  H.kind = "refs" /\ H.thr = 1 => \A o \in x.made \ x.dead : Refs(x, o) > 0
RetE(H, c, e) ==
  IF c.p[e.t].o = "none" \/ c.d[e.t] = Undone \/ c.d[e.t] # e.r \/ ~Tidy(H, c.x) THEN {}
  ELSE IF c.p[e.t].o = "dtor" /\ ~(c.x.enq \subseteq c.x.dead /\ (H.init = 1 => c.x.inits = 0..(c.x.sz - 1))) THEN {}
  ELSE {[c EXCEPT !.p[e.t] = None, !.d[e.t] = Undone]}
OtherE(H, c, e) ==
  LET x == c.x
      to(y) == {[c EXCEPT !.x = y]}
      if(b, y) == IF b THEN to(y) ELSE {}
  IN CASE e.e = "bb" -> if(x.b = x.e /\ c.p[e.t].o = "bwait" /\ x.n[e.t] = x.b + 1 /\ \A t \in DOMAIN x.n : x.n[t] = x.b + 1, [x EXCEPT !.b = @ + 1])
       [] e.e = "be" -> if(x.b = x.e + 1, [x EXCEPT !.e = @ + 1])
       [] e.e = "it" -> if(e.k \in 0..(x.sz - 1) /\ e.k \notin x.inits /\ e.t \notin x.tids, [x EXCEPT !.inits = @ \cup {e.k}, !.tids = @ \cup {e.t}])
       [] e.e = "jb" -> if(e.k \in x.p /\ (H.init = 1 => e.t \in x.tids), [x EXCEPT !.p = @ \ {e.k}, !.run = @ \cup {e.k}])
       [] e.e = "je" -> if(e.k \in x.run, [x EXCEPT !.run = @ \ {e.k}, !.e = @ \cup {e.k}])
       [] e.e = "jd" -> if(e.k \notin x.dead /\ (e.k \in x.e \/ (x.term /\ e.k \in Range(x.q) /\ \E t \in Thr : c.p[t].o = "dtor")), [x EXCEPT !.dead = @ \cup {e.k}])
       [] e.e = "od" -> if(e.k \in x.made /\ e.k \notin x.dead /\ Refs(x, e.k) = 0, [x EXCEPT !.dead = @ \cup {e.k}])
       [] e.e = "f" -> if(/\ \A t \in Thr : c.p[t].o = "none"
                          /\ H.kind = "refs" => \A o \in x.made : o \in x.dead <=> Refs(x, o) = 0
                          /\ H.kind = "barrier" => x.b = x.e /\ \A t \in DOMAIN x.n : x.n[t] = x.e, x)
Visible(H, c, e) == IF e.e = "c" THEN CallE(H, c, e) ELSE IF e.e = "r" THEN RetE(H, c, e) ELSE IF e.e = "x" THEN {} ELSE OtherE(H, c, e)
Advance(H, S, e) == UNION {Visible(H, c, e) : c \in IF e.e = "c" THEN S ELSE Closure(H, S)}
=============================================================================
