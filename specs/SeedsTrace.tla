----------------------------- MODULE SeedsTrace -----------------------------
(* Recorded draws of the real generators, samplers and splits.                 *)
EXTENDS TraceBase, Seeds
Start0(t) == [table |-> <<>>, count |-> <<>>]
Count(s, src) == IF src \in DOMAIN s.count THEN s.count[src] ELSE 0
Clause0(s, e) ==
    CASE e.op = "draw" -> If(Consistent(s.table, e.key, Count(s, e.src) + 1, e.val), "another result for the same seed")
      [] e.op = "global" -> If(e.same, "the global random generator was used")
      [] e.op = "consume" -> ""
      [] OTHER -> e.op
Step0(s, e) ==
    IF e.op # "draw" THEN s
    ELSE LET n == Count(s, e.src) + 1
         IN [table |-> Extend(s.table, e.key, n, e.val),
             count |-> [k \in (DOMAIN s.count) \cup {e.src} |-> IF k = e.src THEN n ELSE s.count[k]]]
Expected0(s, e) == IF e.op = "draw" THEN <<Count(s, e.src) + 1, Prefix(s.table, e.key)>> ELSE <<>>
=============================================================================
