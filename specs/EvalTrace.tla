------------------------------ MODULE EvalTrace ------------------------------
(* Recorded evaluations: the arguments, every answer the model gave, what a    *)
(* recording metric was called with, and the returned results.                 *)
EXTENDS TraceBase, EvalLaws, SequencesExt, FiniteSetsExt

Start0(t) == <<>>
AsSeq(X) == SetToSeq(X)
Good(e) == {i \in DOMAIN e.calls : ~e.calls[i].err}

Argmax(p, u, X) == {i \in X : \A j \in X : Value(p.rows, u, j) <= Value(p.rows, u, i)}
Vals(p, u, X) == [i \in X |-> Value(p.rows, u, i)]
P(e) == [e.p EXCEPT !.items = Items(@), !.users = Items(@)]

\* ---- what a recording metric may be given for a call (k is checked by counting)
SpyMatches(p, e, s, c) ==
    LET rel == Items(s.rel)
        dom == IF e.op = "ranking" THEN Items(c.asked) ELSE rel \cup Items(c.recs)
    IN /\ s.recs = c.recs
       /\ rel \subseteq Pos(p.rows, c.u, p.th) /\ Cardinality(rel) = NPos(p, c.u)
       /\ (e.op = "ranking" => rel \subseteq Items(c.asked))
       /\ (IF rel = {} THEN s.best = 0 ELSE s.best \in Argmax(p, c.u, rel))
       /\ {s.rv[i][1] : i \in DOMAIN s.rv} = dom
       /\ \A i \in DOMAIN s.rv : s.rv[i][2] = Value(p.rows, c.u, s.rv[i][1])
SpyClause(p, e) ==
    IF ~e.spied THEN ""
    ELSE IF \E k \in Items(e.ks) : Cardinality({i \in DOMAIN e.spies : e.spies[i].k = k}) # Cardinality(Good(e)) THEN "number of metric evaluations"
    ELSE IF \E i \in DOMAIN e.spies : ~\E j \in Good(e) : SpyMatches(p, e, e.spies[i], e.calls[j]) THEN "arguments of the metrics"
    ELSE IF \E j \in Good(e) : ~\E i \in DOMAIN e.spies : SpyMatches(p, e, e.spies[i], e.calls[j]) THEN "a user is not evaluated"
    ELSE ""

RelOf(p, e, c) ==
    IF e.op = "ranking" THEN Items(c.asked) \cap Pos(p.rows, c.u, p.th)
    ELSE IF p.npos < 0 THEN Pos(p.rows, c.u, p.th)
    ELSE Items(e.spies[CHOOSE i \in DOMAIN e.spies : SpyMatches(p, e, e.spies[i], c)].rel)
DomOf(e, c, rel) == IF e.op = "ranking" THEN Items(c.asked) ELSE rel \cup Items(c.recs)
RECURSIVE Sums(_, _, _, _, _, _)
Sums(p, e, m, k, todo, acc) ==
    IF todo = {} THEN acc
    ELSE LET j == CHOOSE x \in todo : TRUE
             c == e.calls[j]
             rel == RelOf(p, e, c)
         IN Sums(p, e, m, k, todo \ {j}, AddUser(acc, UserValues(m, c.recs, k, AsSeq(rel), Argmax(p, c.u, rel), Vals(p, c.u, DomOf(e, c, rel)))))
ResultClause(p, e) ==
    LET bad == {i \in DOMAIN e.res : ~\E a \in Averages(Sums(p, e, e.metrics[e.res[i].m], e.res[i].k, Good(e), {<<0, 0>>})) : Rounded(e.res[i].val, a)}
    IN IF Len(e.res) # Len(e.metrics) * Len(e.ks) \/ e.extra THEN "names of the results"
       ELSE IF bad = {} THEN "" ELSE "average of " \o e.metrics[e.res[CHOOSE i \in bad : TRUE].m].name

\* ---- which users are evaluated, and how
NCandidates(p, u) == NPos(p, u) + (IF p.nneg = <<>> THEN Cardinality(Neg(p.rows, u, p.th)) ELSE IF Generates(p, u) THEN NNeg(p, u) ELSE Min2(NNeg(p, u), Cardinality(Neg(p.rows, u, p.th))))
CallClause(p, e, c) ==
    IF c.u \notin Evaluated(p) THEN "a user that is not to be evaluated"
    ELSE IF ~EnoughPos(p, c.u) THEN "a user without enough positive interactions"
    ELSE IF c.novelty # e.novelty THEN "novelty"
    ELSE IF c.err THEN If(c.u \notin p.users \/ c.planned, "the model was asked for something invalid")
    ELSE IF e.op = "ranking" THEN
        IF ~EnoughNeg(p, c.u) THEN "a user without enough negative candidates"
        ELSE CandidateClause(p, c.u, c.asked)
    ELSE FirstOf(<<If(NPos(p, c.u) > 0, "a user without positive interactions"), If(c.n = Max(Items(e.ks)), "number of recommendations"), If(c.thc = e.thc, "prediction threshold")>>)
Required(p, e, u) == /\ u \in p.users /\ EnoughPos(p, u)
                     /\ (IF e.op = "ranking" THEN SurelyEnoughNeg(p, u) /\ NCandidates(p, u) > 0 ELSE NPos(p, u) > 0)
RankingClause(p, e) ==
    LET bad == {i \in DOMAIN e.calls : CallClause(p, e, e.calls[i]) # ""}
        asked == {e.calls[i].u : i \in DOMAIN e.calls}
    IN IF e.err THEN "evaluation failed"
       ELSE IF bad # {} THEN CallClause(p, e, e.calls[CHOOSE i \in bad : TRUE])
       ELSE IF Cardinality(asked) # Len(e.calls) THEN "a user is evaluated more than once"
       ELSE IF \E u \in Evaluated(p) : Required(p, e, u) /\ u \notin asked THEN "a user is left out"
       ELSE FirstOf(<<SpyClause(p, e), IF SpyClause(p, e) = "" THEN ResultClause(p, e) ELSE "">>)

\* the same evaluation with many seeds: taken are the pairs of users and candidates seen
ReachClause(p, e) ==
    LET due(u) == u \in p.users /\ EnoughPos(p, u) /\ NPos(p, u) > 0 /\ (e.ranking => SurelyEnoughNeg(p, u))
        wanted(u) == IF e.ranking THEN Reachable(p, u) ELSE Pos(p.rows, u, p.th)
        missed == {u \in Evaluated(p) : due(u) /\ \E i \in wanted(u) : <<u, i>> \notin Items(e.taken)}
    IN IF e.err THEN "evaluation failed" ELSE IF missed # {} THEN "candidates that no seed takes" ELSE ""

\* ---- predictive evaluation: rows <<true value, prediction>> times 8, NoPred / Fails
NoPred == -2000000000
Fails == -1999999999
RECURSIVE Pairs(_, _, _, _)
Pairs(e, i, n, acc) ==
    IF i > Len(e.rows) \/ Len(acc) >= n THEN acc
    ELSE LET r == e.rows[i]
         IN IF r[2] \notin {NoPred, Fails} THEN Pairs(e, i + 1, n, Append(acc, r))
            ELSE IF e.countnone THEN Pairs(e, i + 1, n, Append(acc, <<r[1], 0>>))
            ELSE Pairs(e, i + 1, n, acc)
Expect(e) == Pairs(e, 1, IF e.n < 0 THEN Len(e.rows) ELSE Min2(e.n, Len(e.rows)), <<>>)
\* rows reached before the number of predictions is complete
RECURSIVE Reached(_, _, _, _)
Reached(e, i, n, c) == IF i > Len(e.rows) \/ c >= n THEN i - 1
                       ELSE Reached(e, i + 1, n, IF e.rows[i][2] \notin {NoPred, Fails} \/ e.countnone THEN c + 1 ELSE c)
Rats(ps) == [i \in DOMAIN ps |-> <<Rat(ps[i][1], 8), Rat(ps[i][2], 8)>>]
\* val = 10^4 * sqrt(x) up to rounding, compared in 10^-4 of the square
IsRoot(val, x) == LET a == val \div 100 b == val % 100
                      sq == a * a + (200 * a * b + b * b) \div 10000
                  IN Abs(sq - Decimal(x, 4)) <= val \div 8000 + 2
PredictiveClause(e) ==
    LET n == IF e.n < 0 THEN Len(e.rows) ELSE Min2(e.n, Len(e.rows))
        fatal == ~e.skip /\ \E i \in 1..Reached(e, 1, n, 0) : e.rows[i][2] \in {NoPred, Fails}
        ps == Expect(e)
        r == Rats(ps)
        ok(x) == CASE x.name = "MSE" -> Abs(10 * x.val - Decimal(MSE(r), 5)) <= 6
                   [] x.name = "MAE" -> Abs(10 * x.val - Decimal(MAE(r), 5)) <= 6
                   [] x.name = "RMSE" -> IsRoot(x.val, MSE(r))
    IN IF fatal THEN If(e.err, "prediction errors are hidden")
       ELSE IF ps = <<>> THEN ""
       ELSE IF e.err THEN "evaluation failed"
       ELSE IF e.spied /\ e.pairs # ps THEN "pairs given to the metrics"
       ELSE IF {e.res[i].name : i \in DOMAIN e.res} # Items(e.names) THEN "names of the results"
       ELSE LET bad == {i \in DOMAIN e.res : e.res[i].name \in {"MSE", "RMSE", "MAE"} /\ ~ok(e.res[i])}
            IN IF bad = {} THEN "" ELSE e.res[CHOOSE i \in bad : TRUE].name

\* ---- independence of schedule, threads, verbosity and backend
Outcome(e) == <<{<<e.calls[i].u, Items(e.calls[i].asked), e.calls[i].recs>> : i \in {i \in Good(e) : TRUE}}, {e.res[i] : i \in DOMAIN e.res}>>
Keys(s) == {s[i][1] : i \in DOMAIN s}
Clause0(s, e) ==
    IF e.op = "predictive" THEN PredictiveClause(e)
    ELSE IF e.op = "reach" THEN ReachClause(P(e), e)
    ELSE LET c == RankingClause(P(e), e)
         IN IF c # "" THEN c
            ELSE If(\A i \in DOMAIN s : s[i][1] = e.key => s[i][2] = Outcome(e), "the outcome differs from that of the same evaluation")
Step0(s, e) == IF e.op \in {"predictive", "reach"} \/ e.key \in Keys(s) THEN s ELSE Append(s, <<e.key, Outcome(e)>>)
Expected0(s, e) ==
    IF e.op = "predictive" THEN Expect(e)
    ELSE IF e.op = "reach" THEN [u \in Evaluated(P(e)) |-> <<Reachable(P(e), u), {i \in Items(e.p.items) \cup {r[2] : r \in Items(e.p.rows)} : <<u, i>> \in Items(e.taken)}>>]
    ELSE <<Evaluated(P(e)), [i \in DOMAIN e.res |-> <<e.metrics[e.res[i].m].name, e.res[i].k, e.res[i].val>>]>>
=============================================================================
