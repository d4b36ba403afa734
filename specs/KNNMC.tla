-------------------------------- MODULE KNNMC --------------------------------
(* The neighbour search as it is computed (k largest <<similarity, id>> pairs  *)
(* among the valid ones) against the definition, for all small matrices.       *)
(* Mode "latem" applies the minimum of co-ratings after choosing neighbours.   *)
EXTENDS KNN, SequencesExt, TLC
CONSTANTS NU, NI, Ratings, Metrics, Ks, Ms, Mode
VARIABLES p, done
vars == <<p, done>>

Larger(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Largest(k, S) == LET s == SetToSortSeq(S, Larger) IN {s[x][2] : x \in 1..(IF k < Len(s) THEN k ELSE Len(s))}
Computed(a) ==
    LET T == Table([p EXCEPT !.m = IF Mode = "latem" THEN 0 ELSE @])
        N == Largest(p.k, {<<T[a][b].s, b>> : b \in {b \in DOMAIN T : T[a][b].s > 0}})
    IN IF Mode = "latem" THEN {b \in N : CoRated(Mat(p), a, b) >= p.m} ELSE N

Init == /\ done = FALSE
        /\ \E r \in [1..NU -> [1..NI -> Ratings]], k \in Ks, m \in Ms, metric \in Metrics, kind \in {"user", "item"}, agg \in {"mean", "weighted_mean"}, sh \in {-1, 2} :
            p = [kind |-> kind, nu |-> NU, ni |-> NI, r |-> r, k |-> k, m |-> m, metric |-> metric, agg |-> agg, shrink |-> sh, avg |-> FALSE]
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_vars

Rows == DOMAIN Mat(p)
Symmetric == done => LET T == Table(p) IN \A a, b \in Rows : T[a][b] = T[b][a]
Admissible == done => LET T == Table(p) IN \A a \in Rows : Computed(a) \in Neighbourhoods(p, T, a)
\* predictions lie between the interactions they are made of
Between == done => LET T == Table(p) IN
    \A u \in 1..NU, i \in 1..NI : \A y \in Predictions(p, T, u, i) :
        y[1] # NoValue => LET vs == IF p.kind = "user" THEN {V(p.r[x], i) : x \in {x \in 1..NU : p.r[x][i] # 0}} ELSE {V(p.r[u], x) : x \in {x \in 1..NI : p.r[u][x] # 0}}
                          IN y[1] + 10 >= 5000 * Min(vs) - 2 /\ y[2] - 10 <= 5000 * Max(vs) + 2
=============================================================================
