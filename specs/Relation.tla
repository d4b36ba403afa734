------------------------------ MODULE Relation ------------------------------
(* Rows and the relational reading of the dataset operations.                *)
(* A row is a function from column names to integers (the encoding of all    *)
(* values is order preserving), always including "rid", its record id.       *)
(* A table is a sequence of rows in increasing record id order.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NULL == -2000000000

SetOf(s) == {s[i] : i \in DOMAIN s}
Without(s, x) == SelectSeq(s, LAMBDA e : e # x)
Contains(s, x) == \E i \in DOMAIN s : s[i] = x

Compare(op, a, b) ==
    CASE op = ">"  -> a > b
      [] op = ">=" -> a >= b
      [] op = "<"  -> a < b
      [] op = "<=" -> a <= b
      [] op = "==" -> a = b
      [] op = "!=" -> a # b

Holds(row, conds) == \A i \in DOMAIN conds : Compare(conds[i].op, row[conds[i].col], conds[i].val)
Filter(rows, conds) == SelectSeq(rows, LAMBDA r : Holds(r, conds))

Restrict(row, cols) == [c \in cols |-> row[c]]

\* projection without duplicates: the first row of every combination of cols (the record id does not count)
Distinct(rows, cols) ==
    LET key == (SetOf(cols) \ {"rid"})
        keys == [i \in DOMAIN rows |-> Restrict(rows[i], key)]
        First(i) == key = {} \/ \A j \in 1..(i - 1) : keys[j] # keys[i]
        firsts == SelectSeq([i \in DOMAIN rows |-> i], First)
    IN [k \in DOMAIN firsts |-> Restrict(rows[firsts[k]], key \cup {"rid"})]

\* order of first appearance of the values of a column
Appearance(rows, col) ==
    LET First(i) == \A j \in 1..(i - 1) : rows[j][col] # rows[i][col]
        firsts == SelectSeq([i \in DOMAIN rows |-> i], First)
    IN [k \in DOMAIN firsts |-> rows[firsts[k]][col]]

IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

MaxOf(S) == IF S = {} THEN NULL ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == IF S = {} THEN NULL ELSE CHOOSE x \in S : \A y \in S : y >= x
ColumnValues(rows, col) == {rows[i][col] : i \in DOMAIN rows}

SumSeq(s) == LET acc[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE acc[i - 1] + s[i] IN acc[Len(s)]
SumOver(rows, col) == SumSeq([i \in DOMAIN rows |-> rows[i][col]])

\* the value of row under each of the given columns, in the given order
Project(row, cols) == [i \in DOMAIN cols |-> row[cols[i]]]
ProjectAll(rows, cols) == [i \in DOMAIN rows |-> Project(rows[i], cols)]
=============================================================================
