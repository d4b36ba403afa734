------------------------------ MODULE MetricsMC ------------------------------
(* Laws of the metrics, checked for every recommendation list, relevant set,   *)
(* truncation and relevancy map within the bounds. These sanity laws tie the   *)
(* definitions to what users rely on (ranges, ideal value, monotonicity).      *)
EXTENDS Metrics, TLC
CONSTANTS MaxItem, MaxLen, MaxRel

ItemIds == 1..MaxItem
VARIABLES recs, rel, k, rel2, chosen
vars == <<recs, rel, k, rel2, chosen>>

SeqOf(A) == LET RECURSIVE Asc(_)
                Asc(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Asc(X \ {m})
            IN Asc(A)
Distinct(s) == Cardinality(Items(s)) = Len(s)
Init ==
    /\ recs \in UNION {[1..n -> ItemIds] : n \in 0..MaxLen} /\ Distinct(recs)
    /\ rel \in {SeqOf(A) : A \in SUBSET ItemIds}
    /\ k = NoK /\ rel2 = [i \in ItemIds |-> 0] /\ chosen = FALSE
Next ==
    /\ ~chosen /\ chosen' = TRUE
    /\ k' \in {NoK} \cup 1..(MaxLen + 1)
    /\ rel2' \in [ItemIds -> 0..MaxRel]
    /\ UNCHANGED <<recs, rel>>
Spec == Init /\ [][Next]_vars

In01(x) == x = Undefined \/ (RLeq(Zero, x) /\ RLeq(x, One))
Ranges ==
    /\ In01(Precision(recs, k, rel)) /\ In01(Recall(recs, k, rel)) /\ In01(AveragePrecision(recs, k, rel))
    /\ In01(FScore(recs, k, rel, 1, 1)) /\ In01(FScore(recs, k, rel, 2, 1)) /\ In01(FScore(recs, k, rel, 1, 2))
    /\ \A b \in ItemIds : In01(ReciprocalRank(recs, k, b))
RecallGrows == (k # NoK /\ rel # <<>>) => RLeq(Recall(recs, k, rel), Recall(recs, k + 1, rel))
\* the harmonic mean lies between precision and recall
Between ==
    LET p == Precision(recs, k, rel) r == Recall(recs, k, rel) f == FScore(recs, k, rel, 1, 1)
    IN (Undefined \notin {p, r} /\ p # Zero) => (RLeq(p, f) /\ RLeq(f, r)) \/ (RLeq(r, f) /\ RLeq(f, p))
APPerfect == (rel # <<>> /\ recs = rel) => AveragePrecision(recs, k, rel) = One
APZero == (rel # <<>> /\ Hits(Truncate(recs, k), rel) = 0) => AveragePrecision(recs, k, rel) = Zero
BestDCG == \A s \in BOOLEAN : DCG(GainsOf(recs, k, rel2, s)) <= DCG(GainsOf(Ideal(rel2), k, rel2, s)) + Slack(GainsOf(recs, k, rel2, s))
IdealNDCG == \A s \in BOOLEAN : NDCGDefined(k, rel2, s) => IsNDCG(S, Ideal(rel2), k, rel2, s)
=============================================================================
