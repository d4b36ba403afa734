------------------------------ MODULE DatasetMC ------------------------------
EXTENDS Dataset
Row(r, u, v, x) == [rid |-> r, user |-> u, item |-> v, interaction |-> x]
MCCols == <<"user", "item", "interaction", "rid">>
MCTables == {<<Row(0, a, b, 1), Row(1, 0, c, d)>> : a, b, c \in {0, 1}, d \in {0, 1}}
MCTables3 == {<<Row(0, 1, b, 1), Row(1, 0, 1, c), Row(2, 1, 1, 0)>> : b, c \in {0, 1}}
MCVals == {0, 1}
=============================================================================
