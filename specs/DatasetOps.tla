----------------------------- MODULE DatasetOps -----------------------------
(* One dataset instance as a value, and the effect and the answer of every    *)
(* public operation on it. Used by the state machine (Dataset.tla), by the    *)
(* storage refinement (Storage.tla) and by the trace specification.           *)
EXTENDS Relation

\* cols: column names in order; ids: internal ids assigned; umap/imap: raw ids in order of internal id
Instance(cols, rows) == [open |-> TRUE, cols |-> cols, rows |-> rows, ids |-> FALSE, umap |-> <<>>, imap |-> <<>>]
Nothing == [open |-> FALSE, cols |-> <<>>, rows |-> <<>>, ids |-> FALSE, umap |-> <<>>, imap |-> <<>>]

HasCols(d, cs) == \A i \in DOMAIN cs : Contains(d.cols, cs[i])
QueryOK(d, conds) == \A i \in DOMAIN conds : Contains(d.cols, conds[i].col)

\* ---- effects
Select(d, conds) == [d EXCEPT !.rows = Filter(d.rows, conds)]

UniqueCols(d, cols) == IF Contains(cols, "rid") THEN cols ELSE Append(cols, "rid")
Unique(d, cols) == [d EXCEPT !.rows = Distinct(d.rows, cols), !.cols = UniqueCols(d, cols)]

Drop(d, rids, keep) == [d EXCEPT !.rows = SelectSeq(d.rows, LAMBDA r : keep <=> Contains(rids, r["rid"]))]

\* f: sequence of <<from, to>> pairs
Image(f, x) == LET i == CHOOSE k \in DOMAIN f : f[k][1] = x IN f[i][2]
Apply(d, col, f) == [d EXCEPT !.rows = [i \in DOMAIN d.rows |-> [d.rows[i] EXCEPT ![col] = Image(f, @)]]]
ReadOnlyCols == {"rid", "uid", "iid", "user", "item"}

AssignIds(d) ==
    LET um == Appearance(d.rows, "user")
        im == Appearance(d.rows, "item")
        withIds(r) == [c \in (DOMAIN r) \cup {"uid", "iid"} |->
                          IF c = "uid" THEN IndexOf(um, r["user"]) - 1
                          ELSE IF c = "iid" THEN IndexOf(im, r["item"]) - 1 ELSE r[c]]
        c1 == IF Contains(d.cols, "uid") THEN d.cols ELSE Append(d.cols, "uid")
        c2 == IF Contains(c1, "iid") THEN c1 ELSE Append(c1, "iid")
    IN [d EXCEPT !.rows = [i \in DOMAIN d.rows |-> withIds(d.rows[i])], !.cols = c2, !.ids = TRUE, !.umap = um, !.imap = im]

RemoveIds(d) ==
    [d EXCEPT !.rows = [i \in DOMAIN d.rows |-> Restrict(d.rows[i], (DOMAIN d.rows[i]) \ {"uid", "iid"})],
              !.cols = Without(Without(d.cols, "uid"), "iid"), !.ids = FALSE, !.umap = <<>>, !.imap = <<>>]

\* ---- answers
Values(d, cols) == ProjectAll(d.rows, cols)
CountUnique(d, cols) == Len(Distinct(d.rows, cols))
FirstMatch(d, conds) == LET m == Filter(d.rows, conds) IN IF m = <<>> THEN <<>> ELSE <<m[1]>>
Exists(d, conds) == Filter(d.rows, conds) # <<>>
MaxCol(d, col) == MaxOf(ColumnValues(d.rows, col))
MinCol(d, col) == MinOf(ColumnValues(d.rows, col))

\* Conversions. Ids of records that were filtered out after the assignment may or may not still be known.
ToInternal(map, d, col, raw) ==
    IF ~Contains(map, raw) THEN {NULL}
    ELSE IF raw \in ColumnValues(d.rows, col) THEN {IndexOf(map, raw) - 1} ELSE {IndexOf(map, raw) - 1, NULL}
ToRaw(map, d, col, id) ==
    IF id < 0 \/ id >= Len(map) THEN {NULL}
    ELSE IF map[id + 1] \in ColumnValues(d.rows, col) THEN {map[id + 1]} ELSE {map[id + 1], NULL}

\* interaction vector of internal id `id` of column a ("uid" or "iid"), indexed by column b
Vector(d, a, b, id) ==
    [k \in 1..(MaxCol(d, b) + 1) |->
        SumOver(SelectSeq(d.rows, LAMBDA r : r[a] = id /\ r[b] = k - 1), "interaction")]

\* ---- laws of a single instance
RowsOrdered(d) == \A i \in 1..(Len(d.rows) - 1) : d.rows[i]["rid"] < d.rows[i + 1]["rid"]
ColumnsAgree(d) == \A i \in DOMAIN d.rows : DOMAIN d.rows[i] = SetOf(d.cols)
IdsBijective(d) ==
    /\ d.ids => Cardinality(SetOf(d.umap)) = Len(d.umap) /\ Cardinality(SetOf(d.imap)) = Len(d.imap)
    /\ d.ids /\ Contains(d.cols, "uid") /\ Contains(d.cols, "user") =>
         \A i \in DOMAIN d.rows : d.umap[d.rows[i]["uid"] + 1] = d.rows[i]["user"]
    /\ d.ids /\ Contains(d.cols, "iid") /\ Contains(d.cols, "item") =>
         \A i \in DOMAIN d.rows : d.imap[d.rows[i]["iid"] + 1] = d.rows[i]["item"]
WellFormed(d) == RowsOrdered(d) /\ ColumnsAgree(d) /\ IdsBijective(d)
=============================================================================
