-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The thread pool: workers take jobs from a queue guarded by a mutex, a   *)
(* caller enqueues jobs (a job may enqueue one more), waits until the pool *)
(* is empty, and finally terminates it.                                    *)
(* Defect: "none"; "busy": the waiter looks at the queue only; "order":    *)
(* the job is counted as done after the worker is counted as idle;         *)
(* "first": the finished worker signals before it is counted as idle;      *)
(* "fetch": the worker is counted as busy only once it has let go of the   *)
(* queue.                                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS W, Jobs, Nested, Defect
VARIABLES own, q, busy, done, term, cvj, cvf, pc, run, left, mpc, ret, sub
vars == <<own, q, busy, done, term, cvj, cvf, pc, run, left, mpc, ret, sub>>
Init == /\ own = "free" /\ q = 0 /\ busy = 0 /\ done = 0 /\ term = FALSE /\ cvj = {} /\ cvf = {}
        /\ pc = [w \in W |-> "lock"] /\ run = 0 /\ left = Jobs /\ mpc = "enq" /\ ret = "no" /\ sub = 0
U(s) == UNCHANGED s
Go(w, a) == pc' = [pc EXCEPT ![w] = a]
M == <<left, mpc, ret>>
Lock(w) == pc[w] = "lock" /\ own = "free" /\ own' = w /\ Go(w, "top") /\ U(<<q, busy, done, term, cvj, cvf, run, sub>>) /\ U(M)
Top(w) == /\ pc[w] = "top" /\ U(<<busy, done, term, cvf, run, sub, q>>) /\ U(M)
          /\ IF ~term /\ q = 0 THEN own' = "free" /\ cvj' = cvj \cup {w} /\ Go(w, "wait") ELSE U(<<own, cvj>>) /\ Go(w, "pick")
Wake(w) == pc[w] = "wait" /\ w \notin cvj /\ own = "free" /\ own' = w /\ Go(w, "top") /\ U(<<q, busy, done, term, cvj, cvf, run, sub>>) /\ U(M)
Pick(w) == /\ pc[w] = "pick" /\ own' = "free" /\ U(<<done, term, cvj, cvf, sub>>) /\ U(M)
           /\ IF term THEN Go(w, "end") /\ U(<<q, busy, run>>)
              ELSE IF q = 0 THEN Go(w, "lock") /\ U(<<q, busy, run>>)
              ELSE /\ q' = q - 1 /\ IF Defect = "fetch" THEN Go(w, "late") /\ U(<<busy, run>>)
                                    ELSE busy' = busy + 1 /\ run' = run + 1 /\ Go(w, "job")
Late(w) == pc[w] = "late" /\ busy' = busy + 1 /\ run' = run + 1 /\ Go(w, "job") /\ U(<<own, q, done, term, cvj, cvf, sub>>) /\ U(M)
\* the job runs; it may enqueue another one (lock, push, notify one, unlock: one step, nothing else can interleave)
Job(w) == /\ pc[w] = "job" /\ U(<<busy, done, term, cvf, run>>) /\ U(M) /\ U(own) /\ Go(w, "d1")
          /\ \/ U(<<q, cvj, sub>>)
             \/ sub < Nested /\ own = "free" /\ sub' = sub + 1 /\ q' = q + 1 /\ (IF cvj = {} THEN U(cvj) ELSE \E x \in cvj : cvj' = cvj \ {x})
D1(w) == pc[w] = "d1" /\ (IF Defect = "order" THEN busy' = busy - 1 /\ U(done) ELSE IF Defect = "first" THEN U(<<busy, done>>) ELSE done' = done + 1 /\ U(busy))
         /\ Go(w, IF Defect = "first" THEN "n" ELSE "d2") /\ U(<<own, q, term, cvj, cvf, run, sub>>) /\ U(M)
D2(w) == pc[w] = "d2" /\ (IF Defect = "order" THEN done' = done + 1 /\ U(busy) ELSE busy' = busy - 1 /\ (IF Defect = "first" THEN done' = done + 1 ELSE U(done)))
         /\ Go(w, IF Defect = "first" THEN "lock" ELSE "n") /\ U(<<own, q, term, cvj, cvf, run, sub>>) /\ U(M)
N(w) == pc[w] = "n" /\ own = "free" /\ cvf' = {} /\ Go(w, IF Defect = "first" THEN "d2" ELSE "top") /\ (IF Defect = "first" THEN U(own) ELSE own' = w)
        /\ U(<<q, busy, done, term, cvj, run, sub>>) /\ U(M)
\* --- the caller
Enq == /\ mpc = "enq" /\ U(<<own, busy, done, term, cvf, pc, run, ret, sub>>)
       /\ IF left = 0 THEN mpc' = "loop" /\ U(<<q, cvj, left>>)
          ELSE own = "free" /\ q' = q + 1 /\ left' = left - 1 /\ U(mpc) /\ (IF cvj = {} THEN U(cvj) ELSE \E x \in cvj : cvj' = cvj \ {x})
Loop == /\ mpc = "loop" /\ own = "free" /\ U(<<own, q, busy, done, term, cvj, pc, run, left, sub, ret>>)
        /\ IF q = 0 /\ (Defect = "busy" \/ busy = 0) THEN mpc' = "read" /\ U(cvf) ELSE mpc' = "sleep" /\ cvf' = cvf \cup {"m"}
Woke == mpc = "sleep" /\ "m" \notin cvf /\ mpc' = "loop" /\ U(<<own, q, busy, done, term, cvj, cvf, pc, run, left, sub, ret>>)
Read == mpc = "read" /\ mpc' = "term" /\ ret' = (IF done = Jobs + sub /\ run = done THEN "all" ELSE "short") /\ U(<<own, q, busy, done, term, cvj, cvf, pc, run, left, sub>>)
Term == mpc = "term" /\ own = "free" /\ term' = TRUE /\ cvj' = {} /\ cvf' = {} /\ mpc' = "join" /\ U(<<own, q, busy, done, pc, run, left, sub, ret>>)
Next == (\E w \in W : Lock(w) \/ Top(w) \/ Wake(w) \/ Pick(w) \/ Late(w) \/ Job(w) \/ D1(w) \/ D2(w) \/ N(w)) \/ Enq \/ Loop \/ Woke \/ Read \/ Term
\* --- a second caller may terminate early (ThreadPool::terminate from anywhere)
Done == mpc = "join" /\ \A w \in W : pc[w] = "end"
Spec == Init /\ [][Next \/ (Done /\ U(vars))]_vars
Sym == Permutations(W)
AllDone == ret # "short"
Counts == q >= 0 /\ busy >= 0 /\ run <= Jobs + sub
=============================================================================
