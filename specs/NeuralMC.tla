------------------------------ MODULE NeuralMC ------------------------------
(* All small tables of interactions: laws of the training data and the loss.   *)
EXTENDS Neural, TLC
CONSTANTS Values, MaxRows, Bug
VARIABLES rows, thr
NU == 2
NI == 2
Row == (0..(NU - 1)) \X (0..(NI - 1)) \X Values
Init == thr \in 1..4 /\ rows \in UNION {[1..n -> Row] : n \in 0..MaxRows}
Next == UNCHANGED <<rows, thr>>
Spec == Init /\ [][Next]_<<rows, thr>>

T(u) == Target(rows, u, NI, thr)
Table == [u \in 1..NU |-> T(u - 1)]
\* squared errors of the predictions p, which should be compared with the targets of the same user
Loss(p) == CellSum(LAMBDA k, j : IF Bug = "crossed" THEN SumOf([v \in 1..NU |-> (Table[v][j] - p[k][j]) * (Table[v][j] - p[k][j])], 1..NU)
                                  ELSE (Table[k][j] - p[k][j]) * (Table[k][j] - p[k][j]), p)

ZeroAtTargets == Loss(Table) = 0
OnlyThere == \A p \in [1..NU -> [1..NI -> {0, 1}]] : Loss(p) = 0 => p = Table
Monotone == \A u \in 0..(NU - 1), i \in 1..NI : T(u)[i] >= Target(rows, u, NI, thr + 1)[i]
OthersIrrelevant == \A u \in 0..(NU - 1) : T(u) = Target(SelectSeq(rows, LAMBDA r : r[1] = u), u, NI, thr)
Reached == \A k \in DOMAIN rows : Cardinality(Of(rows, rows[k][1], rows[k][2])) = 1 => (T(rows[k][1])[rows[k][2] + 1] = 1 <=> rows[k][3] >= thr)
Missing == \A u \in 0..(NU - 1), i \in 1..NI : Of(rows, u, i - 1) = {} => T(u)[i] = 0
LearnableLaws == \A u \in 0..(NU - 1), i \in 0..(NI - 1), v \in Values \cup {0} :
    Learnable(rows, <<u, i, v>>, thr) =>
        \/ v >= thr /\ (\E k \in DOMAIN rows : rows[k] = <<u, i, v>>)
        \/ v = 0 /\ (Of(rows, u, i) = {} \/ \E j \in Of(rows, u, i) : rows[j][3] < thr)
StandardLaws == \A x, y \in 0..4 : LET s == Standard(x, 0, 4) IN s[1] >= 0 /\ s[1] <= s[2] /\ Rescaled(s, 0, 4) = x /\ (x < y => s[1] < Standard(y, 0, 4)[1])
LabelLaws == \A a, b \in 0..3 : SumOf(Labels(a, b), 1..(a + b)) = a
=============================================================================
