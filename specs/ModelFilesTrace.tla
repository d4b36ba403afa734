--------------------------- MODULE ModelFilesTrace ---------------------------
(* Recorded histories of fitting, saving, loading and asking real models.      *)
(* Answers of a version are learnt when first given and never change; an       *)
(* answer is the code of the complete, exact result of a query.                *)
EXTENDS TraceBase
Start0(t) == [inst |-> <<>>, file |-> <<>>, next |-> 1, memo |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Key(s, e) == <<s.inst[e.m], e.q>>
Clause0(s, e) ==
    CASE e.op \in {"fit", "save", "load"} -> If(~e.err, e.op \o " failed")
      [] e.op = "ask" -> If(Key(s, e) \notin DOMAIN s.memo \/ s.memo[Key(s, e)] = e.a, "answer of the model changed")
Step0(s, e) ==
    CASE e.op = "fit" -> [s EXCEPT !.inst = Put(@, e.m, s.next), !.next = @ + 1]
      [] e.op = "save" -> [s EXCEPT !.file = Put(@, e.f, s.inst[e.m])]
      [] e.op = "load" -> [s EXCEPT !.inst = Put(@, e.m, s.file[e.f])]
      [] e.op = "ask" -> IF Key(s, e) \in DOMAIN s.memo THEN s ELSE [s EXCEPT !.memo = Put(@, Key(s, e), e.a)]
Expected0(s, e) == IF e.op = "ask" THEN <<s.inst[e.m], IF Key(s, e) \in DOMAIN s.memo THEN s.memo[Key(s, e)] ELSE 0>> ELSE <<>>
=============================================================================
