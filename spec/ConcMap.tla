------------------------------- MODULE ConcMap -------------------------------
(***************************************************************************)
(* A concurrent ordered map as its users see it: a thread calls an         *)
(* operation, the operation takes effect at some instant before it         *)
(* returns, and returns the result it had at that instant.  A range scan   *)
(* is not atomic: it observes every key of its range at some instant of    *)
(* its own between call and return, and reports the keys it saw present    *)
(* in order.  This is the design specification; ConcMapTrace.tla decides   *)
(* whether a recorded history is one of its behaviours.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, KeyOps

CONSTANTS Threads, NKeys, Values, PointOps, MaxCalls, WithScan

Keys == 0..(NKeys - 1)
NoOp == [o |-> "none"]

VARIABLES map,      \* key -> 0 or value: the abstract contents
          pend,     \* thread -> the operation it is executing
          res,      \* thread -> [key -> result] for the keys at which its operation has taken effect
          hist,     \* the visible history: calls and returns
          calls     \* number of calls made (bounds the model)
vars == <<map, pend, res, hist, calls>>

IsScan(p) == p.o = "scan"
KeysOf(p) == IF IsScan(p) THEN {k \in Keys : p.k <= k /\ k < p.hi} ELSE {p.k}

Init == /\ map \in [Keys -> {0} \cup Values]
        /\ pend = [t \in Threads |-> NoOp]
        /\ res = [t \in Threads |-> <<>>]
        /\ hist = <<>>
        /\ calls = 0

CallPoint(t) == /\ pend[t] = NoOp /\ calls < MaxCalls
           /\ \E o \in PointOps, k \in Keys, v \in Values :
                /\ pend' = [pend EXCEPT ![t] = [o |-> o, k |-> k, v |-> v]]
                /\ hist' = Append(hist, [e |-> "c", t |-> t, o |-> o, k |-> k, v |-> v])
           /\ res' = [res EXCEPT ![t] = [k \in {} |-> 0]]
           /\ calls' = calls + 1
           /\ UNCHANGED map

CallScan(t) == /\ WithScan /\ pend[t] = NoOp /\ calls < MaxCalls
           /\ \E lo \in Keys, hi \in 1..NKeys, lim \in 1..(NKeys + 1) :
                /\ lo < hi
                /\ pend' = [pend EXCEPT ![t] = [o |-> "scan", k |-> lo, hi |-> hi, v |-> lim]]
                /\ hist' = Append(hist, [e |-> "c", t |-> t, o |-> "scan", k |-> lo, hi |-> hi, v |-> lim])
           /\ res' = [res EXCEPT ![t] = [k \in {} |-> 0]]
           /\ calls' = calls + 1
           /\ UNCHANGED map

\* the operation of t takes effect on key k (a scan: reads key k)
Effect(t, k) == /\ pend[t] # NoOp /\ k \in KeysOf(pend[t]) /\ k \notin DOMAIN res[t]
                /\ \E a \in Apply(IF IsScan(pend[t]) THEN "get" ELSE pend[t].o, pend[t].v, map[k]) :
                     /\ map' = [map EXCEPT ![k] = a[1]]
                     /\ res' = [res EXCEPT ![t] = [x \in (DOMAIN res[t]) \cup {k} |-> IF x = k THEN a[2] ELSE res[t][x]]]
                /\ UNCHANGED <<pend, hist, calls>>

RetPoint(t) == /\ pend[t] # NoOp /\ ~IsScan(pend[t]) /\ DOMAIN res[t] = KeysOf(pend[t])
               /\ hist' = Append(hist, [e |-> "r", t |-> t, r |-> res[t][pend[t].k]])
               /\ pend' = [pend EXCEPT ![t] = NoOp]
               /\ res' = [res EXCEPT ![t] = <<>>]
               /\ UNCHANGED <<map, calls>>

\* the first n present keys seen, ascending, as <<key, value>> pairs
RECURSIVE Collect(_, _, _, _)
Collect(r, k, hi, n) == IF k >= hi \/ n = 0 THEN <<>>
                        ELSE IF r[k] = 0 THEN Collect(r, k + 1, hi, n)
                        ELSE <<<<k, r[k]>>>> \o Collect(r, k + 1, hi, n - 1)

RetScan(t) == /\ pend[t] # NoOp /\ IsScan(pend[t]) /\ DOMAIN res[t] = KeysOf(pend[t])
              /\ hist' = Append(hist, [e |-> "r", t |-> t, s |-> Collect(res[t], pend[t].k, pend[t].hi, pend[t].v)])
              /\ pend' = [pend EXCEPT ![t] = NoOp]
              /\ res' = [res EXCEPT ![t] = <<>>]
              /\ UNCHANGED <<map, calls>>

Next == \E t \in Threads : CallPoint(t) \/ CallScan(t) \/ (\E k \in Keys : Effect(t, k)) \/ RetPoint(t) \/ RetScan(t)
Spec == Init /\ [][Next]_vars

TypeOK == /\ map \in [Keys -> Nat]
          /\ \A t \in Threads : pend[t] # NoOp => DOMAIN res[t] \subseteq KeysOf(pend[t])
=============================================================================
