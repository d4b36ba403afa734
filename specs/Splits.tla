------------------------------- MODULE Splits -------------------------------
(* The threaded split: the caller creates one task per user, workers take and  *)
(* run them in any order and interleaving, each appending the rows it sampled  *)
(* to a shared list; the caller joins the pool and raises task errors or       *)
(* returns the outcome. Bug selects a broken design (each violates a property, *)
(* which shows the properties have teeth).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Users, Workers, MaxFail, Bug

Free == "free"
Idle == [pc |-> "idle", user |-> 0, draw |-> 0, copy |-> {}]
VARIABLES pending, wk, sampled, lock, shared, errors, failing, main, result
vars == <<pending, wk, sampled, lock, shared, errors, failing, main, result>>

\* tasks are numbered in creation order (order of first appearance of the users); the task seed is seed + number
Order == CHOOSE f \in [1..Cardinality(Users) -> Users] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]
Number(u) == CHOOSE n \in DOMAIN Order : Order[n] = u

Init ==
    /\ failing \in {F \in SUBSET Users : Cardinality(F) <= MaxFail}
    /\ pending = <<>> /\ wk = [w \in Workers |-> Idle] /\ sampled = {} /\ lock = Free /\ shared = 0 /\ errors = {}
    /\ main = "create" /\ result = {}

Create ==
    /\ main = "create"
    /\ pending' = [n \in DOMAIN Order |-> Order[n]] /\ main' = "join"
    /\ UNCHANGED <<wk, sampled, lock, shared, errors, failing, result>>

\* the pool hands out tasks first in first out, but tasks run concurrently
Take(w) ==
    /\ wk[w].pc = "idle" /\ pending # <<>>
    /\ wk' = [wk EXCEPT ![w] = [Idle EXCEPT !.pc = "read", !.user = Head(pending)]] /\ pending' = Tail(pending)
    /\ UNCHANGED <<sampled, lock, shared, errors, failing, main, result>>
Read(w) ==
    /\ wk[w].pc = "read"
    /\ IF wk[w].user \in failing
       THEN errors' = errors \cup {wk[w].user} /\ wk' = [wk EXCEPT ![w] = Idle]
       ELSE wk' = [wk EXCEPT ![w].pc = "draw"] /\ UNCHANGED errors
    /\ UNCHANGED <<pending, sampled, lock, shared, failing, main, result>>
\* every task draws from its own generator; in the broken design all draw from one
Draw(w) ==
    /\ wk[w].pc = "draw"
    /\ wk' = [wk EXCEPT ![w].pc = "lock", ![w].draw = IF Bug = "sharedrng" THEN shared + 1 ELSE Number(wk[w].user)]
    /\ shared' = IF Bug = "sharedrng" THEN shared + 1 ELSE shared
    /\ UNCHANGED <<pending, sampled, lock, errors, failing, main, result>>
Lock(w) ==
    /\ wk[w].pc = "lock" /\ (Bug = "nolock" \/ lock = Free)
    /\ lock' = (IF Bug = "nolock" THEN lock ELSE w)
    /\ wk' = [wk EXCEPT ![w].pc = "store", ![w].copy = sampled]
    /\ UNCHANGED <<pending, sampled, shared, errors, failing, main, result>>
Store(w) ==
    /\ wk[w].pc = "store"
    /\ sampled' = wk[w].copy \cup {<<wk[w].user, wk[w].draw>>}
    /\ lock' = (IF lock = w THEN Free ELSE lock) /\ wk' = [wk EXCEPT ![w] = Idle]
    /\ UNCHANGED <<pending, shared, errors, failing, main, result>>
Join ==
    /\ main = "join"
    /\ IF Bug = "nojoin" THEN pending = <<>> ELSE pending = <<>> /\ \A w \in Workers : wk[w].pc = "idle"
    /\ IF errors # {} /\ Bug # "hide" THEN main' = "raised" /\ UNCHANGED result
       ELSE main' = "done" /\ result' = sampled
    /\ UNCHANGED <<pending, wk, sampled, lock, shared, errors, failing>>

Next == Create \/ Join \/ \E w \in Workers : Take(w) \/ Read(w) \/ Draw(w) \/ Lock(w) \/ Store(w)
Fairness == WF_vars(Create) /\ WF_vars(Join) /\ \A w \in Workers : WF_vars(Take(w) \/ Read(w) \/ Draw(w) \/ Lock(w) \/ Store(w))
Spec == Init /\ [][Next]_vars /\ Fairness

\* the outcome is a function of data and seed alone
ScheduleIndependent == main = "done" => result = {<<u, Number(u)>> : u \in Users}
ErrorsRaised == main = "done" => failing = {}
NoSpuriousError == main = "raised" => failing # {}
MutualExclusion == Cardinality({w \in Workers : wk[w].pc = "store"}) <= 1
Terminates == <>(main \in {"done", "raised"})
=============================================================================
