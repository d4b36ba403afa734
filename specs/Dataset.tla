------------------------------- MODULE Dataset -------------------------------
(* A family of dataset instances derived from the same data: every public      *)
(* operation acts on one instance (in place) or creates one (copy), and no     *)
(* operation is visible through any other instance. Value iterators return the *)
(* rows the instance had when they were opened.                                *)
EXTENDS DatasetOps

CONSTANTS Insts, Gens, BaseCols, BaseTables, QueryVals, MaxSteps

VARIABLES inst,   \* instance name -> dataset value
          gens,   \* iterator name -> [open, owner, rest]
          op,     \* last operation performed (for generated scripts)
          steps
vars == <<inst, gens, op, steps>>

NoGen == [open |-> FALSE, owner |-> 0, rest |-> <<>>]

Init == /\ \E t \in BaseTables : inst = [i \in Insts |-> IF i = 1 THEN Instance(BaseCols, t) ELSE Nothing]
        /\ gens = [g \in Gens |-> NoGen]
        /\ op = [op |-> "load", i |-> 1]
        /\ steps = 0

Put(j, d) == inst' = [inst EXCEPT ![j] = d]
\* where the result of an operation on i goes: i itself (in place) or an unused name
Target(i, j) == j = i \/ ~inst[j].open

DoCopy(i, j) == inst[i].open /\ ~inst[j].open /\ Put(j, inst[i]) /\ UNCHANGED gens
DoSelect(i, j, conds) == inst[i].open /\ Target(i, j) /\ QueryOK(inst[i], conds) /\ Put(j, Select(inst[i], conds)) /\ UNCHANGED gens
DoUnique(i, j, cols) == inst[i].open /\ Target(i, j) /\ HasCols(inst[i], cols) /\ Put(j, Unique(inst[i], cols)) /\ UNCHANGED gens
DoDrop(i, j, rids, keep) == inst[i].open /\ Target(i, j) /\ Put(j, Drop(inst[i], rids, keep)) /\ UNCHANGED gens
CanApply(d, col) == Contains(d.cols, col) /\ col \notin ReadOnlyCols /\ d.rows # <<>>
DoApply(i, col, f) == inst[i].open /\ CanApply(inst[i], col) /\ Put(i, Apply(inst[i], col, f)) /\ UNCHANGED gens
DoAssign(i) == inst[i].open /\ HasCols(inst[i], <<"user", "item">>) /\ Put(i, AssignIds(inst[i])) /\ UNCHANGED gens
DoRemove(i) == inst[i].open /\ Put(i, RemoveIds(inst[i])) /\ UNCHANGED gens
DoClose(i) == /\ inst[i].open /\ Put(i, Nothing)
              /\ gens' = [g \in Gens |-> IF gens[g].open /\ gens[g].owner = i THEN NoGen ELSE gens[g]]
DoOpen(i, g) == inst[i].open /\ ~gens[g].open /\ gens' = [gens EXCEPT ![g] = [open |-> TRUE, owner |-> i, rest |-> inst[i].rows]] /\ UNCHANGED inst
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
DoPull(g, n) == gens[g].open /\ gens' = [gens EXCEPT ![g].rest = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED inst
DoCloseGen(g) == gens[g].open /\ gens' = [gens EXCEPT ![g] = NoGen] /\ UNCHANGED inst

\* ---- the closed system
Conds == {<<[col |-> c, op |-> o, val |-> v]>> : c \in {"user", "item", "interaction"}, o \in {"==", "!=", ">", "<="}, v \in QueryVals}
ColLists == {<<"user">>, <<"item", "user">>, <<"interaction">>, <<"user", "item", "interaction">>}
RidLists == {<<>>, <<0>>, <<1, 2>>, <<7>>}
Graphs == {[k \in 1..Cardinality(QueryVals) |-> <<k - 1, k>>]}

Fresh == {j \in Insts : ~inst[j].open}
NextName == IF Fresh = {} THEN {} ELSE {CHOOSE j \in Fresh : \A k \in Fresh : j <= k}
Targets(i) == {i} \cup NextName

Values0(d) == {d.rows[k]["interaction"] : k \in DOMAIN d.rows}
Next ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \E i \in Insts :
        \/ \E j \in NextName : DoCopy(i, j) /\ op' = [op |-> "copy", i |-> i, j |-> j]
        \/ \E j \in Targets(i), q \in Conds : DoSelect(i, j, q) /\ op' = [op |-> "select", i |-> i, j |-> j, q |-> q]
        \/ \E j \in Targets(i), c \in ColLists : DoUnique(i, j, c) /\ op' = [op |-> "unique", i |-> i, j |-> j, cols |-> c]
        \/ \E j \in Targets(i), r \in RidLists, k \in BOOLEAN : DoDrop(i, j, r, k) /\ op' = [op |-> "drop", i |-> i, j |-> j, rids |-> r, keep |-> k]
        \/ \E f \in Graphs : /\ inst[i].open /\ CanApply(inst[i], "interaction") /\ Values0(inst[i]) \subseteq QueryVals
                             /\ DoApply(i, "interaction", f) /\ op' = [op |-> "apply", i |-> i, col |-> "interaction", fn |-> "inc"]
        \/ DoAssign(i) /\ op' = [op |-> "assign", i |-> i]
        \/ inst[i].ids /\ HasCols(inst[i], <<"uid", "iid">>) /\ DoRemove(i) /\ op' = [op |-> "remove", i |-> i]
        \/ DoClose(i) /\ op' = [op |-> "close", i |-> i]
        \/ \E g \in Gens : DoOpen(i, g) /\ op' = [op |-> "open", i |-> i, g |-> g]
        \/ \E g \in Gens : gens[g].open /\ gens[g].owner = i /\ gens[g].rest # <<>> /\ DoPull(g, 1) /\ op' = [op |-> "pull", g |-> g, n |-> 1]
        \/ \E g \in Gens : gens[g].open /\ gens[g].owner = i /\ DoCloseGen(g) /\ op' = [op |-> "closegen", g |-> g]
Spec == Init /\ [][Next]_vars

\* ---- properties
View == <<inst, gens, steps>>
AllWellFormed == \A i \in Insts : inst[i].open => WellFormed(inst[i])
\* isolation: a step changes at most one instance, and never one it was not called on
Isolation == [][\E i \in Insts : \A k \in Insts \ {i} : inst'[k] = inst[k]]_vars
\* every instance holds a subset of the loaded records: values of read-only columns never change
SubsetOfBase == \A i \in Insts : inst[i].open =>
    \E t \in BaseTables : \A r \in DOMAIN inst[i].rows : \E b \in DOMAIN t :
        \A c \in {"rid", "user", "item"} \cap DOMAIN inst[i].rows[r] : t[b][c] = inst[i].rows[r][c]
\* looking up an assigned id and converting it back gives the same id
RoundTrip == \A i \in Insts : inst[i].open /\ inst[i].ids =>
    \A k \in 1..Len(inst[i].umap) : k - 1 \in ToInternal(inst[i].umap, inst[i], IF HasCols(inst[i], <<"user">>) THEN "user" ELSE "rid", inst[i].umap[k])
\* filtering commutes with taking vectors: a vector never counts a row twice or misses one
VectorTotal == \A i \in Insts : inst[i].open /\ HasCols(inst[i], <<"uid", "iid", "interaction">>) /\ inst[i].rows # <<>> =>
    SumSeq([u \in 1..(MaxCol(inst[i], "uid") + 1) |-> SumSeq(Vector(inst[i], "uid", "iid", u - 1))]) = SumOver(inst[i].rows, "interaction")
\* the user and the item vectors are transposes of each other
VectorTranspose == \A i \in Insts : inst[i].open /\ HasCols(inst[i], <<"uid", "iid", "interaction">>) /\ inst[i].rows # <<>> =>
    \A u \in 0..MaxCol(inst[i], "uid"), v \in 0..MaxCol(inst[i], "iid") :
        Vector(inst[i], "uid", "iid", u)[v + 1] = Vector(inst[i], "iid", "uid", v)[u + 1]
=============================================================================
