----------------------------- MODULE SplitsTrace -----------------------------
(* Calls of the real splits. The state is the input rows and the outcome seen  *)
(* so far for each (split, parameters, seed): later calls, with whatever       *)
(* threads, schedule, verbosity and backend, must return the same.             *)
EXTENDS TraceBase, SplitLaws

Row(r) == [rid |-> r[1], u |-> r[2], i |-> r[3], ts |-> r[4], v |-> SubSeq(r, 5, Len(r))]
Rows(rs) == [k \in DOMAIN rs |-> Row(rs[k])]
Start0(t) == [rows |-> Rows(t.rows), cols |-> t.cols, seen |-> <<>>]

Valid(e) ==
    CASE e.op = "leave_k_out" -> e.p.k > 0 /\ (e.p.kd = 0 \/ e.p.k < e.p.kd) /\ e.threads > 0
      [] e.op = "random_split" -> e.p.k > 0 /\ e.p.k < e.p.kd
      [] e.op = "matrix_split" -> e.p.uk > 0 /\ e.p.uk <= e.p.ukd /\ e.p.ik > 0 /\ e.p.ik <= e.p.ikd /\ e.threads > 0
Possible(s, e) == e.op = "random_split" => (Len(s.rows) * e.p.k) \div e.p.kd > 0

Outcome(e) == <<Rows(e.train), Rows(e.test)>>
Earlier(s, e) == {i \in DOMAIN s.seen : s.seen[i].key = e.key}

Clause0(s, e) ==
    IF e.op = "input" THEN If(e.cols = s.cols /\ Rows(e.rows) = s.rows, "the input dataset was changed")
    ELSE IF e.op = "reach" THEN If(Range(e.taken) = {r.rid : r \in Reachable(e.of, s.rows, e.p)}, "rows which no seed takes, or rows that may not be taken")
    ELSE IF e.fault THEN If(e.err, "an error during the split was hidden")
    ELSE IF ~Valid(e) \/ ~Possible(s, e) THEN If(e.err, "invalid arguments accepted")
    ELSE IF e.err THEN "unexpected error"
    ELSE IF e.cols # s.cols THEN "columns"
    ELSE LET train == Rows(e.train) test == Rows(e.test)
             part == Partition(s.rows, train, test, IF e.op = "random_split" THEN 0 ELSE e.p.min)
         IN IF part # "" THEN part
            ELSE FirstOf(<<CASE e.op = "leave_k_out" -> LeaveKOut(s.rows, train, test, e.p)
                             [] e.op = "random_split" -> RandomSplit(s.rows, train, test, e.p)
                             [] e.op = "matrix_split" -> MatrixSplit(s.rows, train, test, e.p),
                           If(\A i \in Earlier(s, e) : s.seen[i].out = Outcome(e), "another outcome for the same data, parameters and seed")>>)
Step0(s, e) ==
    IF e.op \in {"input", "reach"} \/ e.err \/ e.key = 0 THEN s
    ELSE IF Earlier(s, e) # {} THEN s
    ELSE [s EXCEPT !.seen = Append(@, [key |-> e.key, out |-> Outcome(e)])]
Expected0(s, e) == IF e.op = "input" THEN s.rows
                   ELSE IF e.op = "reach" THEN <<e.p, {r.rid : r \in Reachable(e.of, s.rows, e.p)}>> ELSE <<e.p, {<<u, {r.rid : r \in RowsOf(s.rows, u)}>> : u \in UsersOf(s.rows)}>>
=============================================================================
