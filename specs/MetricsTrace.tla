---------------------------- MODULE MetricsTrace ----------------------------
(* Calls of the real metrics: arguments and results. Rational results arrive   *)
(* as exact fractions, DCG and NDCG with scale S.                              *)
EXTENDS TraceBase, Metrics

Start0(t) == 0
Step0(s, e) == 0

Rel2Of(e) == [x \in {e.relevancies[i][1] : i \in DOMAIN e.relevancies} |-> LET i == CHOOSE j \in DOMAIN e.relevancies : e.relevancies[j][1] = x IN e.relevancies[i][2]]

Value(e) ==
    CASE e.norel -> Zero
      [] e.op = "Precision" -> Precision(e.recs, e.k, e.rel)
      [] e.op = "Recall" -> Recall(e.recs, e.k, e.rel)
      [] e.op = "HitRatio" -> HitRatio(e.recs, e.k, e.rel)
      [] e.op = "ReciprocalRank" -> ReciprocalRank(e.recs, e.k, e.best)
      [] e.op = "FScore" -> FScore(e.recs, e.k, e.rel, e.beta[1], e.beta[2])
      [] e.op = "AveragePrecision" -> AveragePrecision(e.recs, e.k, e.rel)
      [] e.op = "MSE" -> MSE(e.pairs)
      [] e.op = "RMSE" -> MSE(e.pairs)
      [] e.op = "MAE" -> MAE(e.pairs)

Clause0(s, e) ==
    IF e.changed THEN "an argument was modified"
    ELSE IF e.again THEN "the result depends on earlier calls"
    ELSE IF e.op \in {"DCG", "NDCG"} /\ ~e.norel THEN
        IF e.op = "DCG" THEN FirstOf(<<If(~e.err, "unexpected error"), IF e.err THEN "" ELSE If(IsDCG(e.val, e.recs, e.k, Rel2Of(e), e.strong), "DCG")>>)
        ELSE IF ~NDCGDefined(e.k, Rel2Of(e), e.strong) THEN ""
        ELSE FirstOf(<<If(~e.err, "unexpected error"), IF e.err THEN "" ELSE If(IsNDCG(e.val, e.recs, e.k, Rel2Of(e), e.strong), "NDCG")>>)
    ELSE IF Value(e) = Undefined THEN ""
    ELSE IF e.err THEN "unexpected error"
    ELSE If(e.res = Value(e), e.op)

Expected0(s, e) ==
    IF e.op \in {"DCG", "NDCG"} /\ ~e.norel THEN <<DCG(GainsOf(e.recs, e.k, Rel2Of(e), e.strong)), Ideal(Rel2Of(e))>> ELSE Value(e)
=============================================================================
