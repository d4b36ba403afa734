------------------------------- MODULE Storage -------------------------------
(* The storage of database-backed datasets. Instances read a table through a    *)
(* predicate (the state query); tables may be shared between instances. The     *)
(* optimisation replaces the predicate by a table holding just its rows: in     *)
(* place when the table has a single user, by migrating to a new table          *)
(* otherwise. apply and assign write in place, so they migrate first.           *)
(*                                                                              *)
(* rid -> (value, uid) stands for the stored row. The specification is a        *)
(* refinement of the isolated instances: abs[i] is what instance i must show.   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Insts, Rids, Vals, MaxTables, Persisted, Bug

VARIABLES tab,     \* table -> [exists, rows: rid -> value or NoRow]
          use,     \* instance -> [open, table, pred: set of rids]
          gens,    \* instances with an open value iterator -> the table it reads
          abs      \* abstract value of each instance: [rid -> value]
vars == <<tab, use, gens, abs>>

Tables == 1..MaxTables
NoRow == 99
Closed == [open |-> FALSE, table |-> 0, pred |-> {}]
NoTable == [exists |-> FALSE, rows |-> [r \in Rids |-> NoRow]]

Shown(i) == [r \in Rids |-> IF r \in use[i].pred THEN tab[use[i].table].rows[r] ELSE NoRow]
Users(t) == {i \in Insts : use[i].open /\ use[i].table = t}
FreeTables == LET F == {t \in Tables : ~tab[t].exists} IN IF F = {} THEN {} ELSE {CHOOSE t \in F : \A u \in F : t <= u}
PersistedTable(t) == Persisted /\ t = 1

Init == /\ \E f \in [Rids -> Vals] :
             /\ tab = [t \in Tables |-> IF t = 1 THEN [exists |-> TRUE, rows |-> f] ELSE NoTable]
             /\ use = [i \in Insts |-> IF i = 1 THEN [open |-> TRUE, table |-> 1, pred |-> Rids] ELSE Closed]
             /\ abs = [i \in Insts |-> IF i = 1 THEN f ELSE [r \in Rids |-> NoRow]]
        /\ gens = {}

Copy(i, j) == /\ use[i].open /\ ~use[j].open
              /\ use' = [use EXCEPT ![j] = use[i]] /\ abs' = [abs EXCEPT ![j] = abs[i]]
              /\ UNCHANGED <<tab, gens>>
\* a filter keeps the rows with a value in V
Filter(i, V) == /\ use[i].open
                /\ use' = [use EXCEPT ![i].pred = {r \in @ : tab[use[i].table].rows[r] \in V}]
                /\ abs' = [abs EXCEPT ![i] = [r \in Rids |-> IF @[r] \in V THEN @[r] ELSE NoRow]]
                /\ UNCHANGED <<tab, gens>>
Discard(i, D) == /\ use[i].open
                 /\ use' = [use EXCEPT ![i].pred = @ \ D]
                 /\ abs' = [abs EXCEPT ![i] = [r \in Rids |-> IF r \in D THEN NoRow ELSE @[r]]]
                 /\ UNCHANGED <<tab, gens>>

Sole(i) == Cardinality(Users(use[i].table)) = 1 /\ ~PersistedTable(use[i].table)
InPlaceAllowed(i) == CASE Bug = "shared"    -> ~PersistedTable(use[i].table)          \* forgets other users of the table
                       [] Bug = "persisted" -> Cardinality(Users(use[i].table)) = 1   \* rewrites the table saved by the user
                       [] OTHER -> Sole(i)
NoIterators == gens = {} \/ Bug = "iterators"

\* the optimisation: not while value iterators are open
OptInPlace(i) ==
    /\ use[i].open /\ NoIterators /\ InPlaceAllowed(i)
    /\ tab' = [tab EXCEPT ![use[i].table].rows = [r \in Rids |-> IF r \in use[i].pred THEN @[r] ELSE NoRow]]
    /\ use' = [use EXCEPT ![i].pred = {r \in Rids : tab[use[i].table].rows[r] # NoRow} \cap @]
    /\ UNCHANGED <<gens, abs>>
Migrate(i, t) ==
    /\ use[i].open /\ t \in FreeTables
    /\ tab' = [tab EXCEPT ![t] = [exists |-> TRUE, rows |-> Shown(i)]]
    /\ use' = [use EXCEPT ![i] = [open |-> TRUE, table |-> t, pred |-> {r \in Rids : Shown(i)[r] # NoRow}]]
OptMigrate(i) == /\ NoIterators /\ ~InPlaceAllowed(i) /\ \E t \in FreeTables : Migrate(i, t)
                 /\ UNCHANGED <<gens, abs>>
\* apply: in place on an unshared table without open iterators, into a new table otherwise
Bump(v) == IF v = NoRow THEN NoRow ELSE 1 - v
Apply(i) ==
    /\ use[i].open
    /\ IF (Sole(i) /\ gens = {}) \/ Bug = "applyshared"
       THEN /\ tab' = [tab EXCEPT ![use[i].table].rows = [r \in Rids |-> IF r \in use[i].pred THEN Bump(@[r]) ELSE @[r]]]
            /\ UNCHANGED use
       ELSE \E t \in FreeTables :
            /\ tab' = [tab EXCEPT ![t] = [exists |-> TRUE, rows |-> [r \in Rids |-> Bump(Shown(i)[r])]]]
            /\ use' = [use EXCEPT ![i] = [open |-> TRUE, table |-> t, pred |-> {r \in Rids : Shown(i)[r] # NoRow}]]
    /\ abs' = [abs EXCEPT ![i] = [r \in Rids |-> Bump(@[r])]]
    /\ UNCHANGED gens
OpenIter(i) == use[i].open /\ gens' = gens \cup {i} /\ UNCHANGED <<tab, use, abs>>
CloseIter(i) == i \in gens /\ gens' = gens \ {i} /\ UNCHANGED <<tab, use, abs>>
\* the last user of a table removes it (unless it is the saved one, or something is being read)
Close(i) ==
    /\ use[i].open
    /\ tab' = IF (Users(use[i].table) = {i} \/ Bug = "dropshared") /\ gens \ {i} = {} /\ ~PersistedTable(use[i].table)
              THEN [tab EXCEPT ![use[i].table] = NoTable] ELSE tab
    /\ use' = [use EXCEPT ![i] = Closed] /\ gens' = gens \ {i}
    /\ abs' = [abs EXCEPT ![i] = [r \in Rids |-> NoRow]]

Next == \E i \in Insts :
    \/ \E j \in Insts : Copy(i, j)
    \/ \E V \in {{0}, {1}} : Filter(i, V)
    \/ \E r \in Rids : Discard(i, {r})
    \/ OptInPlace(i) \/ OptMigrate(i) \/ Apply(i) \/ OpenIter(i) \/ CloseIter(i) \/ Close(i)
Spec == Init /\ [][Next]_vars

\* every instance shows exactly what it would show without any sharing or optimisation
Transparent == \A i \in Insts : use[i].open => tab[use[i].table].exists /\ Shown(i) = abs[i]
\* a table read by an open iterator is not written
IterStable == [][\A i \in gens : tab'[use[i].table] = tab[use[i].table] \/ use'[i] # use[i] \/ ~use'[i].open]_vars
\* the table the user saved is never changed behind the user's back
SavedUntouched == [][Persisted => tab'[1] = tab[1]]_vars
=============================================================================
