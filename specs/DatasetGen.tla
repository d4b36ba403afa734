----------------------------- MODULE DatasetGen -----------------------------
(* Behaviours of Dataset.tla as scripts: TLC's simulator prints the history of *)
(* operations, the harness executes it on the real datasets.                   *)
EXTENDS DatasetMC, Json
VARIABLE hist
GenInit == Init /\ hist = <<[op |-> "load", rows |-> inst[1].rows]>>
GenNext == Next /\ hist' = Append(hist, op')
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
GenConds == {<<[col |-> "user", op |-> "==", val |-> 1]>>, <<[col |-> "item", op |-> "!=", val |-> 0]>>,
             <<[col |-> "interaction", op |-> ">", val |-> 0]>>, <<[col |-> "interaction", op |-> "<=", val |-> 1], [col |-> "user", op |-> ">", val |-> 0]>>}
GenTables == MCTables \cup MCTables3
Emit == (steps = MaxSteps) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
