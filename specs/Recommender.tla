----------------------------- MODULE Recommender -----------------------------
(* The query interface of a fitted recommender. A model is                     *)
(*   users, items: known raw ids, seen: set of <<user, item>> trained on,      *)
(*   score: partial table of the scores, None for pairs without prediction.    *)
(* tol: how far scores that are equal may lie apart (rounding of real scores). *)
(* Results are sequences of <<score, item>>. Scores are integers.              *)
EXTENDS Integers, Sequences, FiniteSets

None == -2000000000
NoThreshold == -2000000000

Seen(m, u) == {i \in m.items : <<u, i>> \in m.seen}
Near(m, a, b) == a - b <= m.tol /\ b - a <= m.tol
Items(res) == {res[k][2] : k \in DOMAIN res}

\* items that can be returned for u among those asked for
Eligible(m, u, asked, novelty) ==
    {i \in (asked \cap m.items) : (~novelty \/ i \notin Seen(m, u)) /\ m.score[<<u, i>>] # None}

\* res are the best n of the eligible items with a score of at least th
BestClause(m, u, elig, n, th, res) ==
    LET sc(i) == m.score[<<u, i>>]
        ok == {i \in elig : th = NoThreshold \/ sc(i) >= th}
        sure == {i \in elig : th = NoThreshold \/ sc(i) - m.tol >= th}  \* clearly above the threshold
        may == {i \in elig : th = NoThreshold \/ sc(i) + m.tol >= th}
    IN CASE \E k \in DOMAIN res : res[k][2] \notin elig -> "items that must not be returned"
         [] Cardinality(Items(res)) # Len(res) -> "repeated items"
         [] Len(res) > n -> "more items than requested"
         [] \E k \in DOMAIN res : ~Near(m, res[k][1], sc(res[k][2])) -> "score differs from the prediction"
         [] \E k \in 1..(Len(res) - 1) : res[k][1] + m.tol < res[k + 1][1] -> "not ordered by score"
         [] \E k \in DOMAIN res : res[k][2] \notin may -> "items below the threshold"
         [] Len(res) < n /\ ~(sure \subseteq Items(res)) -> "items missing"
         [] Len(res) = n /\ \E i \in sure \ Items(res) : \E k \in DOMAIN res : res[k][1] + m.tol < sc(i) -> "not the best items"
         [] OTHER -> ""

RankClause(m, u, asked, n, novelty, res) == BestClause(m, u, Eligible(m, u, asked, novelty), n, NoThreshold, res)
RecommendClause(m, u, n, novelty, th, res) == BestClause(m, u, Eligible(m, u, m.items, novelty), n, th, res)
=============================================================================
