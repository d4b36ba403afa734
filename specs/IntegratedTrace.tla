--------------------------- MODULE IntegratedTrace ---------------------------
(* Recorded requests for one named dataset. The rows of the full file are      *)
(* numbered; answers are given as row numbers (0: not a row of the file).      *)
(* State: whether the dataset is stored, whether a disturbed request may have stored it, and the parts seen so far.             *)
EXTENDS TraceBase, SplitLaws

Start0(t) == [rows |-> [k \in DOMAIN t.users |-> [rid |-> k, u |-> t.users[k], i |-> k, ts |-> 0, v |-> 0]],
              own |-> t.own, train |-> t.train, test |-> t.test, stored |-> FALSE, tried |-> FALSE, seen |-> <<>>]
P == [k |-> 10, kd |-> 0, min |-> 10, last |-> FALSE, anyorder |-> FALSE]
Seen(z, k) == {z.seen[i].rows : i \in {j \in DOMAIN z.seen : z.seen[j].kind = k}}
AsRows(z, s) == [k \in DOMAIN s |-> z.rows[s[k]]]
Split(z, train, test) ==
    LET a == AsRows(z, train) b == AsRows(z, test)
        part == Partition(z.rows, a, b, P.min)
    IN IF part # "" THEN part ELSE LeaveKOut(z.rows, a, b, P)
\* the answer to a request that was not disturbed
Answer(z, e) ==
    IF e.kind = "full" THEN If(e.rows = [k \in 1..Len(z.rows) |-> k], "rows of the full dataset")
    ELSE IF z.own THEN If(e.rows = (IF e.kind = "train" THEN z.train ELSE z.test), "rows of the part")
    ELSE FirstOf(<<
        If(\A s \in Seen(z, e.kind) : s = e.rows, "another answer than before"),
        IF e.kind = "train" /\ Seen(z, "test") # {} THEN Split(z, e.rows, CHOOSE s \in Seen(z, "test") : TRUE)
        ELSE IF e.kind = "test" /\ Seen(z, "train") # {} THEN Split(z, CHOOSE s \in Seen(z, "train") : TRUE, e.rows)
        ELSE "" >>)
Clause0(z, e) ==
    IF e.op = "reset" THEN ""
    ELSE IF ~e.known THEN If(e.tag = "refused", "an unknown name must be refused")
    ELSE IF e.fault THEN ""
    ELSE IF ~z.stored /\ e.down /\ e.tag = "err" THEN ""
    ELSE IF ~z.stored /\ e.down /\ ~z.tried THEN "answered without the data"
    ELSE IF e.tag # "ok" THEN "the dataset is not available"
    ELSE IF z.stored /\ e.gets > 0 THEN "downloaded again"
    ELSE IF ~e.typed THEN "columns, values or storage"
    ELSE IF \E k \in DOMAIN e.rows : e.rows[k] = 0 THEN "rows that are not in the dataset"
    ELSE Answer(z, e)
Step0(z, e) ==
    IF e.op = "reset" THEN [z EXCEPT !.stored = FALSE, !.tried = FALSE]
    ELSE IF ~e.known THEN z
    ELSE IF e.fault \/ e.tag # "ok" THEN [z EXCEPT !.tried = TRUE]
    ELSE [z EXCEPT !.stored = TRUE,
                   !.seen = IF e.kind = "full" \/ Seen(z, e.kind) # {} THEN @ ELSE Append(@, [kind |-> e.kind, rows |-> e.rows])]
Expected0(z, e) == <<z.stored, z.seen>>
=============================================================================
