------------------------------ MODULE SplitLaws ------------------------------
(* What a split may return. A row is [rid, u, i, ts, v]: record id, user,      *)
(* item, timestamp and the whole record. Splits are nondeterministic: the laws *)
(* describe the set of allowed outcomes (train, test), both sequences of rows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
UsersOf(rows) == {r.u : r \in Range(rows)}
ItemsOf(rows) == {r.i : r \in Range(rows)}
RowsOf(rows, u) == {r \in Range(rows) : r.u = u}
Removed(rows, min) == {r \in Range(rows) : Cardinality(RowsOf(rows, r.u)) < min}
Ordered(rows) == \A i \in 1..(Len(rows) - 1) : rows[i].rid < rows[i + 1].rid

\* train and test are rows of the input in their order, disjoint, and only the removed rows are missing
Partition(rows, train, test, min) ==
    IF ~(Range(train) \subseteq Range(rows)) THEN "train rows are not rows of the input"
    ELSE IF ~(Range(test) \subseteq Range(rows)) THEN "test rows are not rows of the input"
    ELSE IF ~Ordered(train) \/ ~Ordered(test) THEN "row order or repeated rows"
    ELSE IF Range(train) \cap Range(test) # {} THEN "train and test overlap"
    ELSE IF Range(train) \cup Range(test) # Range(rows) \ Removed(rows, min) THEN "rows lost, or rows of removed users kept"
    ELSE ""

\* p.kd = 0: k rows per user, otherwise the fraction k / kd of the user's rows
Quota(p, n) == IF p.kd = 0 THEN p.k ELSE (n * p.k) \div p.kd
Taken(p, n) == LET q == Quota(p, n) IN IF n < p.min \/ q <= 0 \/ n <= q THEN 0 ELSE q
Chronological(rows, u) == \A a, b \in RowsOf(rows, u) : a.rid < b.rid => a.ts <= b.ts
LastOnes(rows, test, u) ==
    LET t == RowsOf(test, u) IN \A a \in t, b \in RowsOf(rows, u) \ t : a.ts >= b.ts
LeaveKOut(rows, train, test, p) ==
    IF \E u \in UsersOf(rows) : Cardinality(RowsOf(test, u)) # Taken(p, Cardinality(RowsOf(rows, u))) THEN "number of test rows of a user"
    ELSE IF p.last /\ \E u \in UsersOf(rows) : (Chronological(rows, u) \/ p.anyorder) /\ ~LastOnes(rows, test, u) THEN "test rows are not the last ones"
    ELSE ""

RandomSplit(rows, train, test, p) ==
    IF Len(test) # (Len(rows) * p.k) \div p.kd THEN "number of test rows" ELSE ""

Subsets(S, n) == {T \in SUBSET S : Cardinality(T) = n}
MatrixTest(rows, p, U, I) ==
    {r \in Range(rows) : /\ r.u \in U /\ r.i \in I /\ Cardinality(RowsOf(rows, r.u)) >= p.min
                         /\ \E s \in RowsOf(rows, r.u) : s.i \notin I}
MatrixSplit(rows, train, test, p) ==
    LET nu == (Cardinality(UsersOf(rows)) * p.uk) \div p.ukd
        ni == (Cardinality(ItemsOf(rows)) * p.ik) \div p.ikd
        T == Range(test)
    IN IF \E U \in Subsets(UsersOf(rows), nu), I \in Subsets(ItemsOf(rows), ni) :
            {r.u : r \in T} \subseteq U /\ {r.i : r \in T} \subseteq I /\ MatrixTest(rows, p, U, I) = T
       THEN "" ELSE "test rows are not those of a sampled set of users and items"

\* the rows that some outcome takes: over many seeds all of them have to be taken
Reachable(op, rows, p) ==
    CASE op = "leave_k_out" -> {r \in Range(rows) : Taken(p, Cardinality(RowsOf(rows, r.u))) > 0}
      [] op = "random_split" -> IF (Len(rows) * p.k) \div p.kd > 0 THEN Range(rows) ELSE {}
      [] op = "matrix_split" ->
            LET nu == (Cardinality(UsersOf(rows)) * p.uk) \div p.ukd
                ni == (Cardinality(ItemsOf(rows)) * p.ik) \div p.ikd
            IN UNION {MatrixTest(rows, p, U, I) : U \in Subsets(UsersOf(rows), nu), I \in Subsets(ItemsOf(rows), ni)}
=============================================================================
