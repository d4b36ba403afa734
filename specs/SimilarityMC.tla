---------------------------- MODULE SimilarityMC ----------------------------
(* Laws of the similarities for every matrix of two rows within the bounds.    *)
EXTENDS Similarity
CONSTANTS Cols, Ratings
MCRatings == {0, 1, 2, 5, -1}
VARIABLES m, chosen
Init == chosen = FALSE /\ m \in {<<a, [c \in 1..Cols |-> 0]>> : a \in [1..Cols -> Ratings]}
Next == ~chosen /\ chosen' = TRUE /\ \E b \in [1..Cols -> Ratings] : m' = <<m[1], b>>
Spec == Init /\ [][Next]_<<m, chosen>>
Symmetric == \A n \in Names : Sim(n, m, 1, 2) = Sim(n, m, 2, 1)
Bounded == \A n \in Names : LET s == Sim(n, m, 1, 2) IN RLeq(s[2], One) /\ RLeq(Zero, s[2])
SelfSimilar == \A n \in {"cosine", "cosine_cf", "jaccard", "msd"} : Rated(m[1]) # {} => Sim(n, m, 1, 1) = <<1, One>>
\* removing the mean makes pearson invariant under shifts of one row (on full rows)
ShiftInvariant == (Rated(m[1]) = 1..Cols /\ \A c \in 1..Cols : m[1][c] + 7 # 0)
                  => Pearson([c \in 1..Cols |-> m[1][c] + 7], m[2]) = Pearson(m[1], m[2])
ScaleInvariant == Cosine([c \in 1..Cols |-> 3 * m[1][c]], m[2]) = Cosine(m[1], m[2])
CoRatedOnly == Both(m[1], m[2]) = {} => \A n \in Names : Sim(n, m, 1, 2)[1] = 0
=============================================================================
