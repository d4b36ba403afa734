--------------------------------- MODULE KNN ---------------------------------
(* Neighbourhood based predictions. A model is                                 *)
(*   kind ("user"/"item"), nu, ni, r: nu x ni matrix of interactions times 2   *)
(*   (0: none, RatedZero: zero), k, m, metric, agg, shrink (-1: off), avg.                      *)
(* Similarities are fixed point numbers (10^-6 before, 10^-8 after shrinking); *)
(* predictions are compared in units of 10^-4.                                 *)
EXTENDS Similarity, FiniteSetsExt

\* rows of the matrix the neighbours are chosen among
Mat(p) == IF p.kind = "user" THEN p.r ELSE [i \in 1..p.ni |-> [u \in 1..p.nu |-> p.r[u][i]]]

\* large denominators are cut to keep the long division within 32 bit
Dec(x, n) == IF x[2] > 200000000 THEN Decimal(<<x[1] \div 10, x[2] \div 10>>, n) ELSE Decimal(x, n)
RECURSIVE Isqrt(_, _, _)
Isqrt(d, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= d THEN Isqrt(d, mid, hi) ELSE Isqrt(d, lo, mid - 1)
\* 10^6 * square root of q (0 <= q <= 1)
Root6(q) ==
    LET d == Dec(q, 8)
        s == Isqrt(d, 0, 10001)
    IN IF s = 0 THEN 0 ELSE s * 100 + (100 * (d - s * s)) \div (2 * s)

Squared == {"cosine", "cosine_cf", "adjusted_cosine", "pearson"}
\* positive part of the similarity of rows a and b in 10^-6
SimP(p, mat, a, b) ==
    LET s == Sim(p.metric, mat, a, b)
    IN IF s[1] <= 0 THEN 0 ELSE IF p.metric \in Squared THEN Root6(s[2]) ELSE Dec(s[2], 6)
CoRated(mat, a, b) == Cardinality(Both(mat[a], mat[b]))
\* value after shrinking, in 10^-8
Shrunk(p, s, n) == IF p.shrink < 0 THEN s * 100 ELSE ((s * 100) \div (n + p.shrink)) * n + (((s * 100) % (n + p.shrink)) * n) \div (n + p.shrink)

Table(p) ==
    LET mat == Mat(p)
    IN [a \in DOMAIN mat |-> [b \in DOMAIN mat |->
         IF a = b \/ CoRated(mat, a, b) = 0 \/ CoRated(mat, a, b) < p.m THEN [s |-> 0, may |-> FALSE]
         ELSE LET x == Sim(p.metric, mat, IF a < b THEN a ELSE b, IF a < b THEN b ELSE a)
              IN [s |-> Shrunk(p, SimP(p, mat, a, b), CoRated(mat, a, b)),
                  \* rounding may turn a similarity of zero into a positive one
                  may |-> x[1] = 0]]]

\* rounding of the fixed point similarities before shrinking carries over
SimTol(p) == 600
\* admissible neighbourhoods of a: the k most similar ones, any choice among equal ones
Neighbourhoods(p, T, a) ==
    LET sure == {b \in DOMAIN T : T[a][b].s > 0}
        maybe == {b \in DOMAIN T : T[a][b].may}
        top(C) == LET n == IF Cardinality(C) < p.k THEN Cardinality(C) ELSE p.k
                  IN {N \in SUBSET C : Cardinality(N) = n /\ \A x \in C \ N, y \in N : T[a][x].s <= T[a][y].s + SimTol(p)}
    IN UNION {top(sure \cup X) : X \in SUBSET maybe}

\* the entity the neighbours belong to, and the interaction of a neighbour
Entity(p, u, i) == IF p.kind = "user" THEN u ELSE i
Has(p, b, u, i) == IF p.kind = "user" THEN p.r[b][i] # 0 ELSE p.r[u][b] # 0
Val(p, b, u, i) == IF p.kind = "user" THEN V(p.r[b], i) ELSE V(p.r[u], b)
RECURSIVE SumSecond(_)
SumSecond(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumSecond(S \ {x})
\* average interaction of the item (user based) or of the user (item based)
Default(p, u, i) ==
    LET vs == IF p.kind = "user" THEN {<<x, V(p.r[x], i)>> : x \in {x \in 1..p.nu : p.r[x][i] # 0}} ELSE {<<x, V(p.r[u], x)>> : x \in {x \in 1..p.ni : p.r[u][x] # 0}}
    IN Rat(SumSecond(vs), 2 * Cardinality(vs))

\* the prediction made with neighbourhood N, as an interval in 10^-4, or None
NoValue == -2000000000
Aggregate(p, T, N, u, i) ==
    LET a == Entity(p, u, i)
        rel == {b \in N : Has(p, b, u, i)}
        vals == {<<b, Val(p, b, u, i)>> : b \in rel}
        top == Max({T[a][b].s : b \in rel})
        f == IF top > 1000000 THEN top \div 1000000 ELSE 1
        w(b) == T[a][b].s \div f
        sw == SumSecond({<<b, w(b)>> : b \in rel})
        swv == SumSecond({<<b, w(b) * Val(p, b, u, i)>> : b \in rel})
        around(x, d) == LET y == Decimal(x, 4) IN <<y - d, y + d>>
    IN IF rel = {} THEN (IF p.avg THEN around(Default(p, u, i), 2) ELSE <<NoValue, NoValue>>)
       ELSE IF p.agg = "mean" THEN around(Rat(SumSecond(vals), 2 * Cardinality(rel)), 2)
       ELSE IF sw = 0 THEN <<5000 * Min({v[2] : v \in vals}) - 2, 5000 * Max({v[2] : v \in vals}) + 2>>
       ELSE around(Rat(swv, 2 * sw), 10)

Predictions(p, T, u, i) == {Aggregate(p, T, N, u, i) : N \in Neighbourhoods(p, T, Entity(p, u, i))}
=============================================================================
