-------------------------- MODULE RecommenderTrace --------------------------
(* Recorded calls of real recommenders. The score table of a fitted model is   *)
(* learnt from its first predictions (or given, for a model with known         *)
(* scores); every later answer has to agree with it. Ids are coded, 0 is an    *)
(* unknown id; answers carry err, and res as <<score * 10^6, item>>.           *)
EXTENDS TraceBase, Recommender

NoModel == [fitted |-> FALSE]
Start0(t) == NoModel

AskedSet(e) == {e.asked[k] : k \in DOMAIN e.asked}
Known(z, e) == Cardinality({k \in DOMAIN e.asked : e.asked[k] \in z.items})
N(z, e) == IF e.n >= 0 THEN e.n ELSE IF e.op = "rank" THEN Known(z, e) ELSE Cardinality(z.items)

PredictClause(z, e) ==
    LET valid == e.u \in z.users /\ e.i \in z.items
        want == IF valid THEN (IF <<e.u, e.i>> \in DOMAIN z.score THEN z.score[<<e.u, e.i>>] ELSE e.v) ELSE None
    IN IF ~valid \/ want = None
       THEN IF e.skip THEN If(~e.err /\ e.v = None, "a prediction that is not possible is not None")
            ELSE If(e.err, "a prediction that is not possible is not refused")
       ELSE FirstOf(<<If(~e.err, "prediction failed"), If(e.v # None /\ Near(z, e.v, want), "prediction differs from the score")>>)

RefusedRank(z, e) == e.u \notin z.users \/ (~e.skipinv /\ \E k \in DOMAIN e.asked : e.asked[k] \notin z.items) \/ e.n > Known(z, e)
Clause0(z, e) ==
    CASE e.op = "fit" -> If(~e.err, "fit failed")
      [] ~z.fitted -> If(e.err, "works before fitting")
      [] e.op = "predict" -> PredictClause(z, e)
      [] e.op = "rank" ->
            IF RefusedRank(z, e) THEN If(e.err, "an invalid rank request is not refused")
            ELSE IF e.err THEN "rank failed"
            ELSE RankClause(z, e.u, AskedSet(e), N(z, e), e.novelty, e.res)
      [] e.op = "recommend" ->
            IF e.u \notin z.users THEN If(e.err, "an unknown user is not refused")
            ELSE IF e.err THEN "recommend failed"
            ELSE RecommendClause(z, e.u, N(z, e), e.novelty, e.th, e.res)

Step0(z, e) ==
    CASE e.op = "fit" ->
            [fitted |-> TRUE, tol |-> IF e.p.kind = "table" THEN 0 ELSE 2, users |-> {e.users[k] : k \in DOMAIN e.users}, items |-> {e.items[k] : k \in DOMAIN e.items},
             seen |-> {e.seen[k] : k \in DOMAIN e.seen}, score |-> [p \in {<<e.table[k][1], e.table[k][2]>> : k \in DOMAIN e.table} |->
                e.table[CHOOSE k \in DOMAIN e.table : <<e.table[k][1], e.table[k][2]>> = p][3]]]
      [] ~z.fitted -> z
      [] e.op = "predict" /\ e.u \in z.users /\ e.i \in z.items /\ <<e.u, e.i>> \notin DOMAIN z.score ->
            [z EXCEPT !.score = [p \in DOMAIN z.score \cup {<<e.u, e.i>>} |-> IF p = <<e.u, e.i>> THEN e.v ELSE z.score[p]]]
      [] OTHER -> z

Expected0(z, e) == IF ~z.fitted \/ e.op = "fit" THEN <<>> ELSE <<z.users, z.items, IF e.u \in z.users THEN <<Seen(z, e.u), [i \in {i \in z.items : <<e.u, i>> \in DOMAIN z.score} |-> z.score[<<e.u, i>>]]>> ELSE <<>>>>
=============================================================================
