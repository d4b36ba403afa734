------------------------------ MODULE TempTrace ------------------------------
(* Recorded histories of datasets in several processes, with the temporary     *)
(* files seen on disk and the datasets that could not be read after each step. *)
(* State: inst {<<process, key, file>>}, own {<<file, process>>}, loose: files *)
(* of loads that failed, live: running processes.                              *)
EXTENDS TraceBase

Set(s) == {s[i] : i \in DOMAIN s}
Start0(t) == [inst |-> {}, own |-> {}, loose |-> {}, live |-> {}]
Of(z, p, k) == {x[3] : x \in {y \in z.inst : y[1] = p /\ y[2] = k}}
Without(z, p, k) == {y \in z.inst : ~(y[1] = p /\ y[2] = k)}
New(e) == Set(e.new)
Step0(z, e) ==
    LET z1 == [z EXCEPT !.own = @ \cup {<<f, e.p>> : f \in New(e)}] IN
    CASE e.op = "load" -> [z1 EXCEPT !.live = @ \cup {e.p}]
      [] e.op = "create" -> [z1 EXCEPT !.inst = @ \cup {<<e.p, e.k, f>> : f \in New(e)}]
      [] e.op = "derive" -> [z1 EXCEPT !.inst = @ \cup {<<e.p, e.j, f>> : f \in New(e) \cup Of(z, e.p, e.k)}]
      [] e.op = "fail" -> [z1 EXCEPT !.loose = @ \cup New(e)]
      [] e.op = "close" -> [z1 EXCEPT !.inst = Without(z, e.p, e.k)]
      [] e.op = "die" -> [z1 EXCEPT !.inst = {x \in @ : x[1] # e.p}, !.live = @ \ {e.p}]
      [] OTHER -> z1
\* the files that may be on disk after the step
May(z, e) ==
    LET n == Step0(z, e)
        dead == {x[1] : x \in {y \in n.own : y[2] \notin n.live}}
    IN {x[3] : x \in n.inst} \cup (n.loose \ dead) \cup (IF e.op = "load" THEN {} ELSE dead)
Clause0(z, e) ==
    FirstOf(<<
        If(e.tag = "ok", "the operation failed"),
        If(e.bad = <<>>, "an open dataset cannot be read"),
        If(e.userok, "a file saved by the user changed"),
        If(\A f \in Set(e.files) : f \in May(z, e), IF e.op = "load" THEN "files of ended processes are not removed" ELSE "a temporary file is left behind") >>)
Expected0(z, e) == <<"files", May(z, e)>>
=============================================================================
