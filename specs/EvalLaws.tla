------------------------------ MODULE EvalLaws ------------------------------
(* What the evaluation processes compute. Test rows are <<user, item, value>>  *)
(* (values times 2), unique per pair, in order; a call is the model's answer   *)
(* for one user. Metric values are fixed point numbers of scale 10^5.          *)
EXTENDS Metrics

RECURSIVE FirstUsers(_, _, _)
FirstUsers(rows, i, acc) ==
    IF i > Len(rows) THEN acc
    ELSE FirstUsers(rows, i + 1, IF \E k \in DOMAIN acc : acc[k] = rows[i][1] THEN acc ELSE Append(acc, rows[i][1]))
TestUsers(rows) == FirstUsers(rows, 1, <<>>)
\* the users to be evaluated: the first n, or all
Evaluated(p) == LET us == TestUsers(p.rows) IN {us[i] : i \in {i \in DOMAIN us : p.nusers < 0 \/ i <= p.nusers}}

Pos(rows, u, th) == {rows[i][2] : i \in {i \in DOMAIN rows : rows[i][1] = u /\ rows[i][3] >= th}}
Neg(rows, u, th) == {rows[i][2] : i \in {i \in DOMAIN rows : rows[i][1] = u /\ rows[i][3] < th}}
Value(rows, u, i) == LET at == {k \in DOMAIN rows : rows[k][1] = u /\ rows[k][2] = i}
                     IN IF at = {} THEN 0 ELSE rows[CHOOSE k \in at : \A j \in at : k <= j][3]
Min2(a, b) == IF a < b THEN a ELSE b

EnoughPos(p, u) == p.npos < 0 \/ Cardinality(Pos(p.rows, u, p.th)) >= p.npos
NPos(p, u) == IF p.npos < 0 THEN Cardinality(Pos(p.rows, u, p.th)) ELSE p.npos
\* requested number of negatives: <<>> all, <<n>> n, <<a, b>> the fraction a / b of the positives
NNeg(p, u) == IF Len(p.nneg) = 1 THEN p.nneg[1] ELSE (p.nneg[1] * NPos(p, u)) \div p.nneg[2]
\* items negatives can be generated from: known ones without positive row of the user in train or test
Blocked(p, u) == Pos(p.train, u, p.th) \cup Pos(p.rows, u, p.th)
Generable(p, u) == p.items \ Blocked(p, u)
Generates(p, u) == p.gen /\ Cardinality(Neg(p.rows, u, p.th)) < NNeg(p, u)
EnoughNeg(p, u) == ~Generates(p, u) \/ Cardinality(Generable(p, u)) >= NNeg(p, u)
\* items unknown to the model among the positives may be counted against the generable ones
SurelyEnoughNeg(p, u) == ~Generates(p, u) \/ Cardinality(p.items) - Cardinality(Blocked(p, u)) >= NNeg(p, u)

\* the candidate list given to the model
CandidateClause(p, u, asked) ==
    LET A == Items(asked)
        pos == A \cap Pos(p.rows, u, p.th)
        negs == Neg(p.rows, u, p.th)
        rest == A \ pos
    IN IF Cardinality(A) # Len(asked) THEN "candidates are repeated"
       ELSE IF Cardinality(pos) # NPos(p, u) THEN "number of positive candidates"
       ELSE IF p.nneg = <<>> THEN (IF rest = negs THEN "" ELSE "negative candidates")
       ELSE IF ~Generates(p, u) THEN
            (IF ~(rest \subseteq negs) THEN "negative candidates"
             ELSE IF Cardinality(rest) # Min2(NNeg(p, u), Cardinality(negs)) THEN "number of negative candidates" ELSE "")
       ELSE IF ~(negs \subseteq rest) THEN "known negatives are left out"
       ELSE IF Cardinality(rest) # NNeg(p, u) THEN "number of negative candidates"
       ELSE IF ~((rest \ negs) \subseteq Generable(p, u)) THEN "generated negatives" ELSE ""

\* candidates of a user that are to be taken by some of many seeds
Reachable(p, u) ==
    Pos(p.rows, u, p.th) \cup
    (IF p.nneg = <<>> THEN Neg(p.rows, u, p.th)
     ELSE IF NNeg(p, u) = 0 THEN {}
     ELSE IF Generates(p, u) THEN Neg(p.rows, u, p.th) \cup Generable(p, u) ELSE Neg(p.rows, u, p.th))

\* ---- metric values of one user: a set of possible <<value, count>> contributions
Discount7 == <<10000000, 6309298, 5000000, 4306766, 3868528, 3562072, 3333333, 3154649, 3010300, 2890648, 2789429, 2702382, 2626495, 2559580, 2500000>>
IntGain(v2, strong) == LET v == v2 \div 2 IN IF strong THEN 2^v - 1 ELSE v
RECURSIVE Gain7(_, _, _, _)
Gain7(recs, i, f, acc) == IF i > Len(recs) THEN acc ELSE Gain7(recs, i + 1, f, acc + f[recs[i]] * Discount7[i])
Dcg7(recs, k, f) == Gain7(Truncate(recs, k), 1, f, 0)
Fix(x) == IF x = Undefined THEN {<<0, 0>>, <<0, 1>>} ELSE {<<Decimal(x, 5), 1>>}
\* recs: what the model returned; rel: relevant items (sequence); best: possible best items; f: values of the rated items
UserValues(m, recs, k, rel, best, f) ==
    CASE m.name = "Precision" -> Fix(Precision(recs, k, rel))
      [] m.name = "Recall" -> Fix(Recall(recs, k, rel))
      [] m.name = "HitRatio" -> Fix(HitRatio(recs, k, rel))
      [] m.name = "FScore" -> Fix(FScore(recs, k, rel, m.bn, m.bd))
      [] m.name = "AveragePrecision" -> Fix(AveragePrecision(recs, k, rel))
      [] m.name = "ReciprocalRank" -> IF best = {} THEN Fix(Undefined) ELSE UNION {Fix(ReciprocalRank(recs, k, b)) : b \in best}
      [] m.name = "DCG" -> {<<Dcg7(recs, k, [i \in DOMAIN f |-> IntGain(f[i], m.strong)]) \div 100, 1>>}
      [] m.name = "NDCG" ->
            LET g == [i \in DOMAIN f |-> IntGain(f[i], m.strong)]
                b == Dcg7(Ideal(g), k, g)
                a == Dcg7(recs, k, g)
                c == IF b > 200000000 THEN 100 ELSE 1
            IN IF b = 0 THEN Fix(Undefined) ELSE Fix(Rat(a \div c, b \div c))

AddUser(sums, vals) == {<<s[1] + v[1], s[2] + v[2]>> : s \in sums, v \in vals}
\* averages over the users, 0 if there is none
Averages(sums) == {IF s[2] = 0 THEN 0 ELSE s[1] \div s[2] : s \in sums}
\* val is rounded to 4 decimals
Rounded(val, avg) == Abs(10 * val - avg) <= 8
=============================================================================
