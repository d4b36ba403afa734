----------------------------- MODULE Evaluation -----------------------------
(* The threaded evaluation: one task per user is queued, workers take them in  *)
(* order, compute the user's metric value and add it to the shared sums under  *)
(* a lock; failing users only count as done. The caller, when verbose, polls   *)
(* the number of finished tasks, then joins the pool and averages.             *)
(* Bug selects a broken design.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NUsers, NWorkers, MaxFail, Bug
Users == 1..NUsers
Workers == 1..NWorkers
VARIABLES queue, wk, sum, cnt, lock, done, failing, verbose, main, result
vars == <<queue, wk, sum, cnt, lock, done, failing, verbose, main, result>>

Val(u) == 2^u   \* sums identify the users counted
Idle == [pc |-> "idle", u |-> 0, s |-> 0, c |-> 0, d |-> 0]
Init == /\ failing \in {F \in SUBSET Users : Cardinality(F) <= MaxFail} /\ verbose \in BOOLEAN
        /\ queue = [i \in 1..NUsers |-> i] /\ wk = [w \in Workers |-> Idle] /\ sum = 0 /\ cnt = 0 /\ lock = 0 /\ done = 0
        /\ main = (IF verbose THEN "poll" ELSE "join") /\ result = <<>>

Take(w) == /\ wk[w].pc = "idle" /\ queue # <<>>
           /\ wk' = [wk EXCEPT ![w] = [Idle EXCEPT !.pc = "rank", !.u = Head(queue)]] /\ queue' = Tail(queue)
           /\ UNCHANGED <<sum, cnt, lock, done, failing, verbose, main, result>>
Rank(w) == /\ wk[w].pc = "rank"
           /\ wk' = [wk EXCEPT ![w].pc = IF wk[w].u \in failing THEN (IF Bug = "nocount" THEN "idle" ELSE "finish") ELSE "lock"]
           /\ UNCHANGED <<queue, sum, cnt, lock, done, failing, verbose, main, result>>
Lock(w) == /\ wk[w].pc = "lock" /\ (Bug = "nolock" \/ lock = 0)
           /\ lock' = (IF Bug = "nolock" THEN lock ELSE w)
           /\ wk' = [wk EXCEPT ![w] = [@ EXCEPT !.pc = "add", !.s = sum, !.c = cnt]]
           /\ UNCHANGED <<queue, sum, cnt, done, failing, verbose, main, result>>
Add(w) == /\ wk[w].pc = "add"
          /\ sum' = wk[w].s + Val(wk[w].u) /\ cnt' = wk[w].c + 1 /\ lock' = (IF lock = w THEN 0 ELSE lock)
          /\ wk' = [wk EXCEPT ![w].pc = "finish"]
          /\ UNCHANGED <<queue, done, failing, verbose, main, result>>
Finish(w) == /\ wk[w].pc = "finish" /\ done' = done + 1 /\ wk' = [wk EXCEPT ![w] = Idle]
             /\ UNCHANGED <<queue, sum, cnt, lock, failing, verbose, main, result>>
Poll == main = "poll" /\ done = NUsers /\ main' = "join" /\ UNCHANGED <<queue, wk, sum, cnt, lock, done, failing, verbose, result>>
Join == /\ main = "join" /\ (Bug = "nojoin" \/ (queue = <<>> /\ \A w \in Workers : wk[w].pc = "idle"))
        /\ main' = "done" /\ result' = <<sum, cnt>> /\ UNCHANGED <<queue, wk, sum, cnt, lock, done, failing, verbose>>
Next == Poll \/ Join \/ \E w \in Workers : Take(w) \/ Rank(w) \/ Lock(w) \/ Add(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Poll) /\ WF_vars(Join) /\ \A w \in Workers : WF_vars(Take(w) \/ Rank(w) \/ Lock(w) \/ Add(w) \/ Finish(w))

RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Val(x) + Total(S \ {x})
Complete == main = "done" => result = <<Total(Users \ failing), NUsers - Cardinality(failing)>>
Terminates == <>(main = "done")
=============================================================================
