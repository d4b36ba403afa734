------------------------------- MODULE Metrics -------------------------------
(* Textbook definitions of the ranking and predictive metrics. Items are       *)
(* integers. A metric whose definition divides by zero is Undefined.           *)
EXTENDS Rational, FiniteSets

Undefined == <<0, 0>>
NoK == -1

Truncate(recs, k) == IF k = NoK THEN recs ELSE SubSeq(recs, 1, IF k < Len(recs) THEN k ELSE Len(recs))
Items(s) == {s[i] : i \in DOMAIN s}
Ratio(n, d) == IF d = 0 THEN Undefined ELSE Rat(n, d)
Hits(recs, rel) == Cardinality(Items(recs) \cap Items(rel))

Precision(recs, k, rel) == LET r == Truncate(recs, k) IN Ratio(Hits(r, rel), Len(r))
Recall(recs, k, rel) == Ratio(Hits(Truncate(recs, k), rel), Cardinality(Items(rel)))
HitRatio(recs, k, rel) == Recall(recs, k, rel)

ReciprocalRank(recs, k, best) ==
    LET r == Truncate(recs, k)
        at == {i \in DOMAIN r : r[i] = best}
    IN IF at = {} THEN Zero ELSE Rat(1, CHOOSE i \in at : \A j \in at : i <= j)

\* beta = bn / bd
FScore(recs, k, rel, bn, bd) ==
    LET p == Precision(recs, k, rel)
        r == Recall(recs, k, rel)
        b2 == Rat(bn * bn, bd * bd)
    IN IF Undefined \in {p, r} THEN Undefined
       ELSE IF p = Zero /\ r = Zero THEN Zero
       ELSE RDiv(RMul(RAdd(One, b2), RMul(p, r)), RAdd(RMul(b2, p), r))

\* mean over the relevant items (at most k of them can be reached) of the precision at the rank of each retrieved one
AveragePrecision(recs, k, rel) ==
    LET r == Truncate(recs, k)
        first == {i \in DOMAIN r : r[i] \in Items(rel) /\ \A j \in 1..(i - 1) : r[j] # r[i]}
        terms == [i \in DOMAIN r |-> IF i \in first THEN Precision(r, i, rel) ELSE Zero]
        n == Cardinality(Items(rel))
        d == IF k = NoK \/ n < k THEN n ELSE k
    IN IF d = 0 THEN Undefined ELSE RDiv(RSum(terms), RInt(d))

\* fixed point numbers of scale S for the discounts 1/log2(i+1) and the powers of two
S == 10000
Discount == <<10000, 6309, 5000, 4307, 3869, 3562, 3333, 3155, 3010, 2891, 2789, 2702>>
\* gains of relevancies given as twice their value: strong 2^rel - 1, weak rel
StrongGain == <<0, 4142, 10000, 18284, 30000, 46569, 70000, 103137, 150000>>
Gain(rel2, strong) == IF strong THEN StrongGain[rel2 + 1] ELSE rel2 * (S \div 2)
\* the discounted gains are kept with scale S; Slack bounds the rounding
RECURSIVE DCGSum(_, _, _)
DCGSum(gains, i, acc) == IF i > Len(gains) THEN acc ELSE DCGSum(gains, i + 1, acc + (gains[i] * Discount[i]) \div S)
DCG(gains) == DCGSum(gains, 1, 0)
Slack(gains) == 2 * Len(gains) + DCG(gains) \div 5000 + 2
GainsOf(recs, k, rel2, strong) == LET r == Truncate(recs, k) IN [i \in DOMAIN r |-> Gain(rel2[r[i]], strong)]

\* the gains of the ideal ranking of all items with a relevancy
RECURSIVE SortDown(_, _)
SortDown(S0, f) ==
    IF S0 = {} THEN <<>>
    ELSE LET m == CHOOSE x \in S0 : \A y \in S0 : f[x] > f[y] \/ (f[x] = f[y] /\ x <= y)
         IN <<m>> \o SortDown(S0 \ {m}, f)
Ideal(rel2) == SortDown(DOMAIN rel2, rel2)

Close(a, b, slack) == Abs(a - b) <= slack
\* val has scale S; NDCG = DCG / IDCG
IsDCG(val, recs, k, rel2, strong) == LET g == GainsOf(recs, k, rel2, strong) IN Close(val, DCG(g), Slack(g))
IsNDCG(val, recs, k, rel2, strong) ==
    LET g == DCG(GainsOf(recs, k, rel2, strong))
        b == DCG(GainsOf(Ideal(rel2), k, rel2, strong))
    IN \* val * b = g, with a slack for the rounding of all three
       LET prod == (val * (b \div 100) + (val * (b % 100)) \div 100) \div (S \div 100)
       IN Close(prod, g, Slack(GainsOf(recs, k, rel2, strong)) + Slack(GainsOf(Ideal(rel2), k, rel2, strong)) + b \div S + 2)
NDCGDefined(k, rel2, strong) == DCG(GainsOf(Ideal(rel2), k, rel2, strong)) > 0

\* predictive metrics over the pairs (true, predicted)
MSE(pairs) == IF pairs = <<>> THEN Undefined
              ELSE RDiv(RSum([i \in DOMAIN pairs |-> LET d == RSub(pairs[i][1], pairs[i][2]) IN RMul(d, d)]), RInt(Len(pairs)))
MAE(pairs) == IF pairs = <<>> THEN Undefined
              ELSE RDiv(RSum([i \in DOMAIN pairs |-> LET d == RSub(pairs[i][1], pairs[i][2]) IN IF d[1] < 0 THEN RNeg(d) ELSE d]), RInt(Len(pairs)))
=============================================================================
