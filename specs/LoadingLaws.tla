----------------------------- MODULE LoadingLaws -----------------------------
(* The records of a text file. A field is [num, n, t]: whether its text is a   *)
(* number, the number and the text (both coded). A column whose fields are all *)
(* numbers is read as numbers, any other column as text. The declaration gives *)
(* the column read from each position ("" leaves it out).                      *)
EXTENDS Integers, Sequences, FiniteSets

Main == {"user", "item", "interaction"}
Reserved == {"uid", "iid"}
Accepted(decl) == (Main \subseteq {decl[i] : i \in DOMAIN decl}) /\ (\A i \in DOMAIN decl : decl[i] \notin Reserved)
Declared(decl) == SelectSeq(decl, LAMBDA c : c # "")
Pos(decl, c) == CHOOSE i \in DOMAIN decl : decl[i] = c
Numeric(file, i) == \A r \in DOMAIN file : file[r][i].num
Value(file, r, i) == IF Numeric(file, i) THEN <<"n", file[r][i].n>> ELSE <<"t", file[r][i].t>>
Record(file, decl, r) == [k \in 1..Len(Declared(decl)) |-> Value(file, r, Pos(decl, Declared(decl)[k]))]
Records(file, decl) == [r \in 1..Len(file) |-> Record(file, decl, r)]
=============================================================================
