------------------------------- MODULE Neural -------------------------------
(* What CDAE, DMF and Caser train on. Rows are <<user, item, interaction>>     *)
(* (internal ids from 0); values are integers in a fixed unit.                 *)
EXTENDS Integers, Sequences, FiniteSets

SumOf(f, S) == LET RECURSIVE g(_) g(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + g(T \ {x}) IN g(S)

Of(rows, u, i) == {k \in DOMAIN rows : rows[k][1] = u /\ rows[k][2] = i}
Total(rows, u, i) == SumOf([k \in DOMAIN rows |-> rows[k][3]], Of(rows, u, i))

\* CDAE reconstructs, for a user, which items reach the threshold
Target(rows, u, nitems, thr) == [i \in 1..nitems |-> IF Total(rows, u, i - 1) >= thr THEN 1 ELSE 0]

\* both learn from interactions reaching the threshold and from pairs that have none (as zero)
Learnable(rows, s, thr) ==
    LET of == {k \in DOMAIN rows : rows[k][1] = s[1] /\ rows[k][2] = s[2]}
    IN \/ \E k \in of : rows[k][3] = s[3] /\ s[3] >= thr
       \/ s[3] = 0 /\ ((of = {} /\ \E k \in DOMAIN rows : rows[k][1] = s[1] /\ \E j \in DOMAIN rows : rows[j][2] = s[2]) \/ \E k \in of : rows[k][3] < thr)

\* DMF predicts standardised interactions: x in [lo, hi] becomes (x - lo) / (hi - lo), kept as the pair of numerator and denominator
Standard(x, lo, hi) == <<x - lo, hi - lo>>
Rescaled(s, lo, hi) == lo + (s[1] * (hi - lo)) \div s[2]

\* Caser tells the items that follow a window of the user's history from items the user does not have
Labels(ntargets, nnegatives) == [k \in 1..(ntargets + nnegatives) |-> IF k <= ntargets THEN 1 ELSE 0]
LastOf(history, n) == SubSeq(history, Len(history) - n + 1, Len(history))

\* the loss is the mean over all cells; cell c of targets and predictions
CellCount(m) == SumOf([k \in DOMAIN m |-> Len(m[k])], DOMAIN m)
CellSum(cell(_, _), m) == SumOf([k \in DOMAIN m |-> SumOf([j \in DOMAIN m[k] |-> cell(k, j)], DOMAIN m[k])], DOMAIN m)
=============================================================================
