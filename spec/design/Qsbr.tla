-------------------------------- MODULE Qsbr --------------------------------
(***************************************************************************)
(* Quiescent-state reclamation of Wormhole: two copies of the inner index, *)
(* the writer changes the copy nobody reads, publishes it, waits until all *)
(* registered readers have announced the new version (or are parked), and  *)
(* only then changes the other copy.                                       *)
(* TSO: the stores of a reader go through a FIFO store buffer, which is    *)
(* what the hardware the code targets does.  Fence: resuming and           *)
(* registering drain the buffer before the index pointer is loaded.        *)
(* Defect: "none"; "nowait": the writer does not wait; "ge": any reader    *)
(* that has announced something passes; "null": a slot is empty between    *)
(* its reservation and the announcement of the reader; "early": the        *)
(* version is announced before the pointer is loaded.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R, Writes, Ops, TSO, Fence, Defect
VARIABLES cur, ver, mod, tq, slot, bit, q, buf, pc, m, v, n, wpc, pend, wn, crash
vars == <<cur, ver, mod, tq, slot, bit, q, buf, pc, m, v, n, wpc, pend, wn, crash>>
No == 9
Init == /\ cur = 0 /\ ver = [i \in 0..1 |-> i] /\ mod = No /\ tq = 0
        /\ slot = [r \in R |-> IF Defect = "null" THEN "null" ELSE "target"] /\ bit = [r \in R |-> FALSE] /\ q = [r \in R |-> 0]
        /\ buf = [r \in R |-> <<>>] /\ pc = [r \in R |-> "out"] /\ m = [r \in R |-> No] /\ v = [r \in R |-> 0] /\ n = [r \in R |-> 0]
        /\ wpc = "idle" /\ pend = {} /\ wn = 0 /\ crash = FALSE
WVars == <<cur, ver, mod, tq, wpc, pend, wn, crash>>
Go(r, a) == pc' = [pc EXCEPT ![r] = a]
\* a store of reader r: w is "slot" or "q"
Store(r, w, x) == IF TSO THEN buf' = [buf EXCEPT ![r] = Append(@, <<w, x>>)] /\ UNCHANGED <<slot, q>>
                  ELSE /\ slot' = (IF w = "slot" THEN [slot EXCEPT ![r] = x] ELSE slot)
                       /\ q' = (IF w = "q" THEN [q EXCEPT ![r] = x] ELSE q) /\ UNCHANGED buf
Drain(r) == /\ buf[r] # <<>> /\ buf' = [buf EXCEPT ![r] = Tail(@)]
            /\ LET e == Head(buf[r]) IN /\ slot' = (IF e[1] = "slot" THEN [slot EXCEPT ![r] = e[2]] ELSE slot)
                                        /\ q' = (IF e[1] = "q" THEN [q EXCEPT ![r] = e[2]] ELSE q)
            /\ UNCHANGED <<bit, pc, m, v, n>> /\ UNCHANGED WVars
\* --- reader
Reg(r) == pc[r] = "out" /\ n[r] < Ops /\ Store(r, "q", 0) /\ Go(r, "reg1") /\ UNCHANGED <<bit, m, v, n>> /\ UNCHANGED WVars
Reg1(r) == pc[r] = "reg1" /\ buf[r] = <<>> /\ bit' = [bit EXCEPT ![r] = TRUE] /\ Go(r, "reg2") /\ UNCHANGED <<slot, q, buf, m, v, n>> /\ UNCHANGED WVars
Reg2(r) == pc[r] = "reg2" /\ Store(r, "slot", "ref") /\ Go(r, "fence") /\ UNCHANGED <<bit, m, v, n>> /\ UNCHANGED WVars
FenceR(r) == pc[r] = "fence" /\ (Fence => buf[r] = <<>>) /\ Go(r, "ready") /\ UNCHANGED <<slot, q, buf, bit, m, v, n>> /\ UNCHANGED WVars
Load(r) == /\ pc[r] = "ready" /\ n[r] < Ops /\ n' = [n EXCEPT ![r] = @ + 1]
           /\ m' = [m EXCEPT ![r] = cur] /\ v' = [v EXCEPT ![r] = IF Defect = "early" THEN ver[1 - cur] ELSE ver[cur]]
           /\ Go(r, "upd") /\ UNCHANGED <<slot, q, buf, bit>> /\ UNCHANGED WVars
Upd(r) == pc[r] = "upd" /\ Store(r, "q", v[r]) /\ Go(r, "trav") /\ UNCHANGED <<bit, m, v, n>> /\ UNCHANGED WVars
Trav(r) == pc[r] = "trav" /\ Go(r, "ready") /\ m' = [m EXCEPT ![r] = No] /\ UNCHANGED <<slot, q, buf, bit, v, n>> /\ UNCHANGED WVars
Park(r) == pc[r] = "ready" /\ Store(r, "slot", "target") /\ Go(r, "parked") /\ UNCHANGED <<bit, m, v, n>> /\ UNCHANGED WVars
Resume(r) == pc[r] = "parked" /\ n[r] < Ops /\ Store(r, "slot", "ref") /\ Go(r, "fence") /\ UNCHANGED <<bit, m, v, n>> /\ UNCHANGED WVars
Unreg(r) == pc[r] = "parked" /\ buf[r] = <<>> /\ bit' = [bit EXCEPT ![r] = FALSE]
            /\ slot' = [slot EXCEPT ![r] = IF Defect = "null" THEN "null" ELSE @] /\ Go(r, "out") /\ UNCHANGED <<q, buf, m, v, n>> /\ UNCHANGED WVars
\* --- writer
RVars == <<slot, bit, q, buf, pc, m, v, n>>
W1 == wpc = "idle" /\ wn < Writes /\ wn' = wn + 1 /\ mod' = 1 - cur /\ wpc' = "w2" /\ UNCHANGED <<cur, ver, tq, pend, crash>> /\ UNCHANGED RVars
W2 == wpc = "w2" /\ ver' = [ver EXCEPT ![1 - cur] = ver[cur] + 1] /\ mod' = No /\ wpc' = "w3" /\ UNCHANGED <<cur, tq, pend, wn, crash>> /\ UNCHANGED RVars
W3 == wpc = "w3" /\ cur' = 1 - cur /\ tq' = ver[1 - cur] /\ wpc' = "snap" /\ UNCHANGED <<ver, mod, pend, wn, crash>> /\ UNCHANGED RVars
Snap == wpc = "snap" /\ pend' = {r \in R : bit[r]} /\ wpc' = "scan" /\ UNCHANGED <<cur, ver, mod, tq, wn, crash>> /\ UNCHANGED RVars
Pass(r) == ~bit[r] \/ slot[r] = "target" \/ q[r] = tq \/ Defect = "nowait" \/ (Defect = "ge" /\ q[r] > 0)
Scan(r) == /\ wpc = "scan" /\ r \in pend
           /\ IF bit[r] /\ slot[r] = "null" THEN crash' = TRUE /\ UNCHANGED pend ELSE Pass(r) /\ pend' = pend \ {r} /\ UNCHANGED crash
           /\ UNCHANGED <<cur, ver, mod, tq, wpc, wn>> /\ UNCHANGED RVars
W4 == wpc = "scan" /\ pend = {} /\ mod' = 1 - cur /\ wpc' = "w5" /\ UNCHANGED <<cur, ver, tq, pend, wn, crash>> /\ UNCHANGED RVars
W5 == wpc = "w5" /\ mod' = No /\ wpc' = "idle" /\ UNCHANGED <<cur, ver, tq, pend, wn, crash>> /\ UNCHANGED RVars
Next == \/ W1 \/ W2 \/ W3 \/ Snap \/ W4 \/ W5 \/ \E r \in R : Scan(r)
        \/ \E r \in R : Drain(r) \/ Reg(r) \/ Reg1(r) \/ Reg2(r) \/ FenceR(r) \/ Load(r) \/ Upd(r) \/ Trav(r) \/ Park(r) \/ Resume(r) \/ Unreg(r)
Spec == Init /\ [][Next]_vars
Sym == Permutations(R)
\* nobody reads the copy that is being changed
NoOverlap == \A r \in R : pc[r] = "trav" => mod # m[r]
NoCrash == ~crash
=============================================================================
