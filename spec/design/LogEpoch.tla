------------------------------ MODULE LogEpoch ------------------------------
(***************************************************************************)
(* Design model of the Masstree logs (MassTree/log.cc): changes 1, 2, ...  *)
(* each build on the previous one and go to any of the logs.  A worker     *)
(* takes a log, the change gets the current epoch and is visible from then *)
(* on, and is recorded later.  A log thread flushes its log from time to   *)
(* time; a log without changes goes quiescent, and wakes the others when   *)
(* changes arrive again.  Recovery replays the epochs that no log can lack *)
(* changes of.                                                             *)
(*                                                                         *)
(* Prefix: what any crash recovers is 1..m.  Durable: it contains all that *)
(* was recorded before the last two rounds of flushing began.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Logs, Workers, MaxC, MaxE, Cap,
          LateWake,  \* a quiescent log wakes when the change is recorded, not when it becomes visible
          Swallow,   \* a log thread that notices a wake takes it for recorded
          NoMark     \* an empty log is not marked at the start

VARIABLES ge, we,           \* global log epoch, global wake epoch
          owner,            \* log -> worker, "log" (its thread) or "no"
          buf, fly, disk,   \* log -> records in memory, being written, synced
          le, qe, wk,       \* log -> log epoch, quiescent epoch, wake epoch
          wait,             \* log -> number of changes waiting for room
          lp, lwe,     \* log thread: position, wake epoch read
          wp, wl, we_, wc,  \* worker: position, its log, epoch, change
          nc,               \* changes made
          n, rd, rec        \* rounds as in DurTrace: counters, rounds done; change -> round it was recorded in (-1: not)
vars == <<ge, we, owner, buf, fly, disk, le, qe, wk, wait, lp, lwe, wp, wl, we_, wc, nc, n, rd, rec>>

Ep(e) == [c |-> "ep", e |-> e]
Wake == [c |-> "wake", e |-> 0]
Quiet == [c |-> "quiet", e |-> 0]
Kv(x) == [c |-> "kv", e |-> x]
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ ge = 1 /\ we = 0
        /\ owner = [x \in Logs |-> "no"]
        /\ buf = [x \in Logs |-> <<>>] /\ fly = [x \in Logs |-> <<>>]
        /\ disk = [x \in Logs |-> IF NoMark THEN <<>> ELSE <<Ep(1)>>]
        /\ le = [x \in Logs |-> 0] /\ qe = [x \in Logs |-> 0] /\ wk = [x \in Logs |-> 0]
        /\ wait = [x \in Logs |-> 0]
        /\ lp = [x \in Logs |-> "idle"] /\ lwe = [x \in Logs |-> 0]
        /\ wp = [w \in Workers |-> "idle"] /\ wl = [w \in Workers |-> 0]
        /\ we_ = [w \in Workers |-> 0] /\ wc = [w \in Workers |-> 0]
        /\ nc = 0 /\ n = [x \in Logs |-> -1] /\ rd = 0 /\ rec = [i \in 1..MaxC |-> -1]

\* --- workers
Take(w, x) == /\ wp[w] = "idle" /\ nc < MaxC /\ owner[x] = "no"
              /\ wait[x] = 0
              /\ \A v \in Workers : wp[v] # "visible"
              /\ owner' = [owner EXCEPT ![x] = w]
              /\ wp' = [wp EXCEPT ![w] = "visible"] /\ wl' = [wl EXCEPT ![w] = x]
              /\ we_' = [we_ EXCEPT ![w] = ge]
              /\ UNCHANGED <<ge, we, buf, fly, disk, le, qe, wk, wait, lp, lwe, wc, nc, n, rd, rec>>
\* the change becomes visible: it builds on all the earlier ones.  (The tree's locks order the changes of a key: the next one
\* takes its log after this one is visible.)
Visible(w) == /\ wp[w] = "visible"
              /\ we' = IF qe[wl[w]] # 0 /\ ~LateWake THEN Max(we, we_[w]) ELSE we
              /\ nc' = nc + 1 /\ wc' = [wc EXCEPT ![w] = nc + 1]
              /\ wp' = [wp EXCEPT ![w] = "record"]
              /\ UNCHANGED <<ge, owner, buf, fly, disk, le, qe, wk, wait, lp, lwe, wl, we_, n, rd, rec>>
Record(w) == LET x == wl[w]
                 q == qe[x] # 0
                 w1 == IF q \/ we # wk[x] THEN Max(we, we_[w]) ELSE we
                 w2 == IF w1 # wk[x] /\ we_[w] < w1 THEN we_[w] ELSE w1
             IN /\ wp[w] = "record" /\ owner[x] = w /\ Len(buf[x]) < Cap
                /\ we' = w1
                /\ buf' = [buf EXCEPT ![x] = @ \o (IF we_[w] # le[x] THEN <<Ep(we_[w])>> ELSE <<>>)
                                               \o (IF w2 # wk[x] THEN <<Wake>> ELSE <<>>) \o <<Kv(wc[w])>>]
                /\ le' = [le EXCEPT ![x] = we_[w]] /\ qe' = [qe EXCEPT ![x] = 0] /\ wk' = [wk EXCEPT ![x] = w2]
                /\ owner' = [owner EXCEPT ![x] = "no"]
                /\ wp' = [wp EXCEPT ![w] = "idle"] /\ wl' = [wl EXCEPT ![w] = 0] /\ we_' = [we_ EXCEPT ![w] = 0] /\ wc' = [wc EXCEPT ![w] = 0]
                /\ rec' = [rec EXCEPT ![wc[w]] = rd]
                /\ UNCHANGED <<ge, fly, disk, wait, lp, lwe, nc, n, rd>>
\* no room: give the log back and come again
Stall(w) == LET x == wl[w] IN
            /\ wp[w] = "record" /\ owner[x] = w /\ Len(buf[x]) >= Cap
            /\ owner' = [owner EXCEPT ![x] = "no"] /\ wp' = [wp EXCEPT ![w] = "stalled"]
            /\ wait' = [wait EXCEPT ![x] = @ + 1]
            /\ UNCHANGED <<ge, we, buf, fly, disk, le, qe, wk, lp, lwe, wl, we_, wc, nc, n, rd, rec>>
Retry(w) == LET x == wl[w] IN
            /\ wp[w] = "stalled" /\ owner[x] = "no" /\ Len(buf[x]) < Cap
            /\ owner' = [owner EXCEPT ![x] = w] /\ wp' = [wp EXCEPT ![w] = "record"]
            /\ wait' = [wait EXCEPT ![x] = @ - 1]
            /\ UNCHANGED <<ge, we, buf, fly, disk, le, qe, wk, lp, lwe, wl, we_, wc, nc, n, rd, rec>>

\* --- log threads
First(x) == /\ lp[x] = "idle" /\ owner[x] = "no"
            /\ owner' = [owner EXCEPT ![x] = "log"] /\ lp' = [lp EXCEPT ![x] = "second"]
            /\ lwe' = [lwe EXCEPT ![x] = we]
            /\ UNCHANGED <<ge, we, buf, fly, disk, le, qe, wk, wait, wp, wl, we_, wc, nc, n, rd, rec>>
Second(x) == LET g == ge
                 u == lwe[x]
                 q0 == IF (IF Swallow THEN wk[x] # u ELSE qe[x] <= u) THEN 0 ELSE qe[x]
                 go == buf[x] = <<>> /\ q0 = 0 /\ g # le[x] /\ wait[x] = 0
             IN /\ lp[x] = "second"
                /\ wk' = IF Swallow THEN [wk EXCEPT ![x] = u] ELSE wk
                /\ qe' = [qe EXCEPT ![x] = IF go THEN g ELSE q0]
                /\ le' = [le EXCEPT ![x] = IF go THEN g ELSE @]
                /\ fly' = [fly EXCEPT ![x] = IF go THEN <<Ep(g)>> \o (IF g = u THEN <<Wake>> ELSE <<>>) \o <<Quiet>> ELSE buf[x]]
                /\ buf' = [buf EXCEPT ![x] = <<>>]
                /\ lwe' = [lwe EXCEPT ![x] = 0]
                /\ owner' = [owner EXCEPT ![x] = "no"] /\ lp' = [lp EXCEPT ![x] = "sync"]
                /\ UNCHANGED <<ge, we, disk, wait, wp, wl, we_, wc, nc, n, rd, rec>>
Sync(x) == /\ lp[x] = "sync"
           /\ disk' = [disk EXCEPT ![x] = @ \o fly[x]] /\ fly' = [fly EXCEPT ![x] = <<>>]
           /\ lp' = [lp EXCEPT ![x] = "idle"]
           /\ LET m == [n EXCEPT ![x] = IF @ = -1 THEN -1 ELSE IF @ = 2 THEN 2 ELSE @ + 1]
              IN IF \A y \in Logs : m[y] >= 2 THEN n' = [y \in Logs |-> -1] /\ rd' = rd + 1 ELSE n' = m /\ rd' = rd
           /\ UNCHANGED <<ge, we, owner, buf, le, qe, wk, wait, lwe, wp, wl, we_, wc, nc, rec>>

Advance == /\ ge < MaxE /\ ge' = ge + 1
           /\ n' = [x \in Logs |-> IF n[x] = -1 THEN 0 ELSE n[x]]
           /\ UNCHANGED <<we, owner, buf, fly, disk, le, qe, wk, wait, lp, lwe, wp, wl, we_, wc, nc, rd, rec>>

Next == Advance \/ (\E x \in Logs : First(x) \/ Second(x) \/ Sync(x))
        \/ (\E w \in Workers : (\E x \in Logs : Take(w, x)) \/ Visible(w) \/ Record(w) \/ Stall(w) \/ Retry(w))
Spec == Init /\ [][Next]_vars

\* --- recovery
RECURSIVE Scan(_, _)   \* epoch, last epoch, wake epoch and wake epochs of a log
Scan(d, i) == IF i = 0 THEN [last |-> 0, wakes |-> {}]
              ELSE LET p == Scan(d, i - 1) IN
                   CASE d[i].c = "ep" -> [p EXCEPT !.last = d[i].e]
                     [] d[i].c = "wake" -> [p EXCEPT !.wakes = @ \cup {p.last}]
                     [] OTHER -> p
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
\* the changes before the first epoch marker at or above e
RECURSIVE Upto(_, _, _)
Upto(d, i, e) == IF i > Len(d) \/ (d[i].c = "ep" /\ d[i].e >= e) THEN {}
                 ELSE (IF d[i].c = "kv" THEN {d[i].e} ELSE {}) \cup Upto(d, i + 1, e)
Recover(D) == LET I == [x \in Logs |-> Scan(D[x], Len(D[x]))]
                  quiet(x) == Len(D[x]) > 0 /\ D[x][Len(D[x])].c = "quiet"
                  maxe == MaxOf({I[x].last : x \in Logs})
                  wakes == UNION {I[x].wakes : x \in Logs}
                  minq == {I[x].last : x \in {y \in Logs : quiet(y)}}
                  lim1 == IF wakes # {} /\ minq # {} /\ MinOf(minq) <= MaxOf(wakes)
                          THEN {e \in wakes : e >= MinOf(minq)} ELSE {}
                  lim2 == {I[x].last : x \in {y \in Logs : ~quiet(y) /\ I[y].last > 0}}
                  max == MinOf({maxe} \cup lim1 \cup lim2)
              IN UNION {Upto(D[x], 1, max) : x \in Logs}

\* a crash keeps what was synced and a part of what was being written
Crashes == {k \in [Logs -> 0..3] : \A x \in Logs : k[x] <= Len(fly[x])}
Symm == Permutations(Logs) \cup Permutations(Workers)
After(k) == [x \in Logs |-> disk[x] \o SubSeq(fly[x], 1, k[x])]
Good == \A k \in Crashes : LET R == Recover(After(k)) IN
          /\ \A i \in R : \A j \in 1..i : j \in R
          /\ \A i \in 1..MaxC : rec[i] # -1 /\ rec[i] + 3 <= rd => i \in R
=============================================================================
