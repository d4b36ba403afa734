----------------------------- MODULE Similarity -----------------------------
(* Definitions of the row similarities of a rating matrix. Ratings are         *)
(* integers (all definitions are invariant under scaling the matrix), 0 means  *)
(* not rated, RatedZero a rating of zero. Cosine like values are given by sign and square, which are       *)
(* rational: <<sign, square>>; jaccard and msd as <<sign, value>>.             *)
EXTENDS Rational, FiniteSets

RatedZero == 1000000
V(a, c) == IF a[c] = RatedZero THEN 0 ELSE a[c]
Rated(a) == {c \in DOMAIN a : a[c] # 0}
Both(a, b) == Rated(a) \cap Rated(b)
Sum(f, S) == LET RECURSIVE Acc(_)
                 Acc(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + Acc(X \ {x})
             IN Acc(S)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Undef == <<0, Zero>>

\* cosine of a and b over the entries in S: dot / sqrt(na * nb)
CosineOver(a, b, Sa, Sb) ==
    LET dot == Sum([c \in Sa \cap Sb |-> V(a, c) * V(b, c)], Sa \cap Sb)
        na == Sum([c \in Sa |-> V(a, c) * V(a, c)], Sa)
        nb == Sum([c \in Sb |-> V(b, c) * V(b, c)], Sb)
        ga == Gcd(Abs(dot), na)
    IN IF na = 0 \/ nb = 0 \/ dot = 0 THEN Undef
       ELSE <<Sign(dot), RMul(Rat(dot, na), Rat(dot, nb))>>

Cosine(a, b) == CosineOver(a, b, Rated(a), Rated(b))
CosineCF(a, b) == CosineOver(a, b, Both(a, b), Both(a, b))
\* ratings minus their mean over S, multiplied by the size of S
Centered(a, S) == [c \in DOMAIN a |-> IF c \in S THEN Cardinality(S) * V(a, c) - Sum([x \in S |-> V(a, x)], S) ELSE 0]
AdjustedCosine(a, b) == CosineOver(Centered(a, Rated(a)), Centered(b, Rated(b)), Rated(a), Rated(b))
Pearson(a, b) == LET S == Both(a, b) IN CosineOver(Centered(a, S), Centered(b, S), S, S)
Jaccard(a, b) == LET u == Cardinality(Rated(a) \cup Rated(b))
                 IN IF u = 0 THEN Undef ELSE LET v == Rat(Cardinality(Both(a, b)), u) IN <<Sign(v[1]), v>>
Entries(m) == {V(m[i], c) : i \in DOMAIN m, c \in DOMAIN m[1]}
Spread(m) == LET E == Entries(m) IN (CHOOSE x \in E : \A y \in E : y <= x) - (CHOOSE x \in E : \A y \in E : x <= y)
MSD(a, b, spread) ==
    LET S == Both(a, b)
        d == Sum([c \in S |-> (V(a, c) - V(b, c)) * (V(a, c) - V(b, c))], S)
        v == IF d = 0 THEN One ELSE RSub(One, Rat(d, spread * spread * Cardinality(S)))
    IN IF S = {} THEN Undef ELSE <<Sign(v[1]), v>>

Sim(name, m, i, j) ==
    CASE name = "cosine" -> Cosine(m[i], m[j])
      [] name = "cosine_cf" -> CosineCF(m[i], m[j])
      [] name = "adjusted_cosine" -> AdjustedCosine(m[i], m[j])
      [] name = "jaccard" -> Jaccard(m[i], m[j])
      [] name = "pearson" -> Pearson(m[i], m[j])
      [] name = "msd" -> MSD(m[i], m[j], Spread(m))
Names == {"cosine", "cosine_cf", "adjusted_cosine", "jaccard", "pearson", "msd"}
=============================================================================
