------------------------------ MODULE TempFiles ------------------------------
(* Temporary database files behind the datasets of several processes. A file  *)
(* is created (and registered) when a dataset is loaded from text, shared by   *)
(* the datasets derived from it, removed when the last of them is closed, and, *)
(* when its process died, when the library is next loaded by any process.      *)
(* Broken selects a defective variant.                                         *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Procs, Keys, Files, Broken

VARIABLES alive,   \* processes that loaded the library and are running
          born,    \* processes that were ever started
          open,    \* [Procs -> [Keys -> file, 0: no dataset, -1: closed]]
          owner,   \* file -> process that created it, 0: not used yet
          exists,  \* files on disk
          reg,     \* registered files
          count    \* file -> datasets the library believes to be using it
vars == <<alive, born, open, owner, exists, reg, count>>

None == 0
Shut == 0 - 1
User == 99  \* a file saved by the user, which datasets can be loaded from
Init == /\ alive = {} /\ born = {} /\ open = [p \in Procs |-> [k \in Keys |-> None]]
        /\ owner = [f \in Files |-> None] /\ exists = {User} /\ reg = {} /\ count = [f \in Files \cup {User} |-> 0]

Create(p, k, f) == /\ p \in alive /\ open[p][k] = None /\ owner[f] = None
                   /\ open' = [open EXCEPT ![p][k] = f] /\ owner' = [owner EXCEPT ![f] = p]
                   /\ exists' = exists \cup {f} /\ reg' = reg \cup {f} /\ count' = [count EXCEPT ![f] = 1]
                   /\ UNCHANGED <<alive, born>>
\* loading fails after the file was created: it is left to the next start
FailLoad(p, f) == /\ p \in alive /\ owner[f] = None
                  /\ owner' = [owner EXCEPT ![f] = p] /\ exists' = exists \cup {f} /\ reg' = reg \cup {f}
                  /\ UNCHANGED <<alive, born, open, count>>
LoadUser(p, k) == /\ p \in alive /\ open[p][k] = None
                  /\ open' = [open EXCEPT ![p][k] = User] /\ count' = [count EXCEPT ![User] = @ + 1]
                  /\ UNCHANGED <<alive, born, owner, exists, reg>>
Derive(p, k, j) == /\ p \in alive /\ open[p][k] > None /\ open[p][j] = None
                   /\ open' = [open EXCEPT ![p][j] = open[p][k]] /\ count' = [count EXCEPT ![open[p][k]] = @ + 1]
                   /\ UNCHANGED <<alive, born, owner, exists, reg>>
Release(f) == LET n == count[f] - 1 IN
    /\ count' = [count EXCEPT ![f] = n]
    /\ IF n = 0 /\ (f # User \/ Broken = "closeuser") THEN /\ exists' = IF Broken = "keepfile" THEN exists ELSE exists \ {f}
                     /\ reg' = IF Broken = "unregall" THEN {} ELSE reg \ {f}
       ELSE UNCHANGED <<exists, reg>>
Close(p, k) == /\ p \in alive /\ open[p][k] > None
               /\ open' = [open EXCEPT ![p][k] = IF Broken = "doubleclose" THEN Shut ELSE None] /\ Release(open[p][k])
               /\ UNCHANGED <<alive, born, owner>>
\* closing a closed dataset has no effect
Again(p, k) == /\ Broken = "doubleclose" /\ p \in alive /\ open[p][k] = Shut
               /\ \E f \in Files : owner[f] = p /\ count[f] > 0 /\ Release(f)
               /\ open' = [open EXCEPT ![p][k] = None]
               /\ UNCHANGED <<alive, born, owner>>
Die(p) == /\ p \in alive /\ alive' = alive \ {p} /\ open' = [open EXCEPT ![p] = [k \in Keys |-> None]]
          /\ UNCHANGED <<born, owner, exists, reg, count>>
Stale == {f \in reg : owner[f] \notin alive}
Load(p) == /\ p \notin born /\ born' = born \cup {p} /\ alive' = alive \cup {p}
           /\ LET gone == IF Broken = "eager" THEN reg ELSE Stale IN exists' = exists \ gone /\ reg' = reg \ gone
           /\ UNCHANGED <<open, owner, count>>

Next == \E p \in Procs : \/ Load(p) \/ Die(p)
                         \/ \E k \in Keys : LoadUser(p, k) \/ Close(p, k) \/ Again(p, k) \/ \E j \in Keys : Derive(p, k, j)
                         \/ \E f \in Files : FailLoad(p, f) \/ \E k \in Keys : Create(p, k, f)
Spec == Init /\ [][Next]_vars

\* ---- properties
Used(f) == \E p \in alive, k \in Keys : open[p][k] = f
\* every open dataset can be read
Readable == \A f \in Files \cup {User} : Used(f) => f \in exists
\* files not in use only remain until their process ends and the library is loaded again
Loose(f) == owner[f] \in alive /\ count[f] = 0 /\ f \in reg  \* a failed load
NoLeak == \A f \in exists \ {User} : Used(f) \/ Loose(f) \/ owner[f] \notin alive
Registered == exists \ {User} \subseteq reg
Collected == [][\A p \in Procs : p \notin born /\ p \in born' => \A f \in exists' \ {User} : owner[f] \in alive']_vars
UserFiles == User \in exists
=============================================================================
