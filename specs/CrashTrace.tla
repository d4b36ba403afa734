----------------------------- MODULE CrashTrace -----------------------------
(* Recorded save attempts: the rows to be saved, how the attempt ended ("ok",  *)
(* "err": an error was raised, "died": the process died or was interrupted),   *)
(* what the file held afterwards and, where the process survived, what the     *)
(* dataset still shows. "use" events are other operations on a dataset loaded  *)
(* from the file, interrupted in the same way.                                 *)
EXTENDS TraceBase, PersistLaws

Found(f) == [there |-> f.there, full |-> f.there /\ ~f.broken, rows |-> f.rows]
Start0(t) == Absent
Readable(e) == If(~(e.look.there /\ e.look.broken), "the file cannot be read")
SaveClause(z, e) ==
    FirstOf(<<
        Readable(e),
        If(Found(e.look) \in Allowed(z, e.rows), "neither the previous nor the new contents"),
        If(e.out = "ok" => Found(e.look) = Full(e.rows), "saved contents"),
        If(e.out = "err" => ~e.unusable, "the dataset cannot be used after a failed save"),
        If(e.out \in {"ok", "err"} /\ ~e.unusable => e.after = e.rows, "rows of the dataset after saving"),
        If(~e.faulty => e.out = "ok", "a later save fails") >>)
UseClause(z, e) == FirstOf(<<Readable(e), If(Found(e.look) = z, "the file changed without a save")>>)
Clause0(z, e) == IF e.op = "save" THEN SaveClause(z, e) ELSE IF e.op = "use" THEN UseClause(z, e) ELSE ""
Step0(z, e) == Found(e.look)
Expected0(z, e) == <<z, IF e.op = "save" THEN Full(e.rows) ELSE z>>
=============================================================================
