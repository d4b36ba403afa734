---------------------------- MODULE LoadingTrace ----------------------------
(* Recorded loads of one file (or data frame) with several declarations and    *)
(* options. State: the records of the file.                                    *)
EXTENDS TraceBase, LoadingLaws

Start0(t) == t.file
LoadClause(z, e) ==
    IF ~Accepted(e.decl) THEN If(e.tag = "err", "columns must be refused")
    ELSE FirstOf(<<
        If(e.tag = "ok", "the file cannot be loaded"),
        If(e.tag = "ok" => e.cols = Declared(e.decl), "columns"),
        If(e.tag = "ok" => e.len = Len(z), "number of records"),
        If(e.tag = "ok" => e.rids = [i \in 1..Len(z) |-> i - 1], "record ids"),
        If(e.tag = "ok" => e.rows = Records(z, e.decl), "values"),
        If(e.tag = "ok" => e.backend = e.want, "backend"),
        If(e.same, "the list of columns given was changed") >>)
Clause0(z, e) == IF e.op = "load" THEN LoadClause(z, e) ELSE If(e.same, "the data frame given was changed")
Step0(z, e) == z
Expected0(z, e) == IF e.op = "load" /\ Accepted(e.decl) THEN <<Declared(e.decl), Records(z, e.decl)>> ELSE <<>>
=============================================================================
