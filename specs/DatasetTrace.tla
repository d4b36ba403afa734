---------------------------- MODULE DatasetTrace ----------------------------
(* Validates recorded histories of the real datasets: every event carries the  *)
(* operation, its arguments and everything the caller observed. A history is   *)
(* accepted iff each event is the corresponding action of Dataset.tla with     *)
(* exactly the prescribed answer.                                              *)
EXTENDS Dataset, Json, IOUtils

VARIABLES tr, l, verdict
tvars == <<vars, tr, l, verdict>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Trace == Traces[tr]
Ops == Trace.ops

TInst == 1..9
TGens == 1..4
TNone == {<<>>}
TCols == <<>>

ToRow(cols, vals) == [c \in SetOf(cols) |-> vals[IndexOf(cols, c)]]
LoadRows(t) == [k \in DOMAIN t.rows |-> ToRow(Append(t.cols, "rid"), Append(t.rows[k], k - 1))]

TraceInit ==
    /\ tr \in 1..Len(Traces)
    /\ inst = [i \in Insts |-> IF i = 1 THEN Instance(Append(Traces[tr].cols, "rid"), LoadRows(Traces[tr])) ELSE Nothing]
    /\ gens = [g \in Gens |-> NoGen]
    /\ op = [op |-> "load"] /\ steps = 0 /\ l = 1 /\ verdict = "run"

\* ---- answers
Ok(e) == e.tag = "ok"
If(c, name) == IF c THEN "" ELSE name
First2(a, b) == IF a # "" THEN a ELSE b
OkTag(e, defined) == IF defined THEN If(Ok(e), "unexpected error") ELSE If(~Ok(e), "missing error")
D(e) == inst[e.i]
ColsOf(e) == IF e.all THEN D(e).cols ELSE e.cols
NoUnknown(e) == ~e.bad
\* rows read as dicts carry exactly the requested keys; read as lists they follow the requested order, one column gives scalars
ShapeOK(e, cols) == e.shape = (IF ~e.tolist THEN "dict" ELSE IF Len(cols) = 1 THEN "scalar" ELSE "list")
RowsAnswer(e, cols, rows) ==
    IF ~ShapeOK(e, cols) /\ rows # <<>> THEN "shape of the records"
    ELSE IF ~e.tolist /\ rows # <<>> /\ SetOf(e.keys) # SetOf(cols) THEN "columns of the records"
    ELSE IF Len(e.res) # Len(rows) THEN "number of rows"
    ELSE IF e.res # ProjectAll(rows, cols) THEN "rows" ELSE ""

VecClause(e, map, a, b, raw) ==
    LET known == D(e).ids /\ e.arg >= 0 /\ e.arg < Len(map)
        present == known /\ map[e.arg + 1] \in ColumnValues(D(e).rows, raw)
    IN IF ~known THEN OkTag(e, FALSE)
       ELSE IF ~present THEN ""
       ELSE First2(OkTag(e, TRUE), If(e.vec = Vector(D(e), a, b, e.arg), a \o " vector"))

Clause(e) ==
    CASE e.op = "copy" -> OkTag(e, TRUE)
      [] e.op = "select" -> OkTag(e, NoUnknown(e) /\ QueryOK(D(e), e.q))
      [] e.op = "unique" -> OkTag(e, NoUnknown(e) /\ (e.all \/ HasCols(D(e), e.cols)))
      [] e.op = "drop" -> OkTag(e, TRUE)
      [] e.op = "apply" -> OkTag(e, NoUnknown(e) /\ CanApply(D(e), e.col))
      [] e.op = "assign" -> OkTag(e, HasCols(D(e), <<"user", "item">>))
      [] e.op = "remove" -> OkTag(e, TRUE)
      [] e.op \in {"close", "closegen"} -> OkTag(e, TRUE)
      [] e.op = "columns" -> IF e.cols # D(e).cols THEN "columns" ELSE If(e.ids = D(e).ids, "has_internal_ids")
      [] e.op = "len" -> First2(OkTag(e, TRUE), If(e.num = Len(D(e).rows), "len"))
      [] e.op = "values" ->
            LET def == NoUnknown(e) /\ (e.all \/ HasCols(D(e), e.cols))
            IN First2(OkTag(e, def), IF def THEN RowsAnswer(e, ColsOf(e), D(e).rows) ELSE "")
      [] e.op = "select_one" ->
            LET def == NoUnknown(e) /\ QueryOK(D(e), e.q) /\ (e.all \/ HasCols(D(e), e.cols))
            IN First2(OkTag(e, def), IF def THEN RowsAnswer(e, ColsOf(e), FirstMatch(D(e), e.q)) ELSE "")
      [] e.op = "exists" ->
            LET def == NoUnknown(e) /\ QueryOK(D(e), e.q)
            IN First2(OkTag(e, def), IF def THEN If(e.num = (IF Exists(D(e), e.q) THEN 1 ELSE 0), "exists") ELSE "")
      [] e.op = "count_unique" ->
            LET def == NoUnknown(e) /\ (e.all \/ HasCols(D(e), e.cols))
            IN First2(OkTag(e, def), IF def THEN If(e.num = CountUnique(D(e), ColsOf(e)), "count_unique") ELSE "")
      [] e.op = "max" -> First2(OkTag(e, NoUnknown(e)), IF NoUnknown(e) THEN If(e.num = MaxCol(D(e), e.col), "max") ELSE "")
      [] e.op = "min" -> First2(OkTag(e, NoUnknown(e)), IF NoUnknown(e) THEN If(e.num = MinCol(D(e), e.col), "min") ELSE "")
      [] e.op = "open" -> First2(OkTag(e, TRUE), If(e.res = ProjectAll(Take(D(e).rows, 1), e.cols), "first row of an iterator"))
      [] e.op = "pull" ->
            First2(OkTag(e, TRUE), If(e.res = ProjectAll(Take(gens[e.g].rest, e.n), e.cols), "rows of an open iterator"))
      [] e.op = "user_to_uid" -> First2(OkTag(e, D(e).ids /\ ~e.bad), IF D(e).ids /\ ~e.bad THEN If(e.num \in ToInternal(D(e).umap, D(e), "user", e.arg), "user_to_uid") ELSE "")
      [] e.op = "item_to_iid" -> First2(OkTag(e, D(e).ids /\ ~e.bad), IF D(e).ids /\ ~e.bad THEN If(e.num \in ToInternal(D(e).imap, D(e), "item", e.arg), "item_to_iid") ELSE "")
      [] e.op = "uid_to_user" -> First2(OkTag(e, D(e).ids), IF D(e).ids THEN If(e.num \in ToRaw(D(e).umap, D(e), "user", e.arg), "uid_to_user") ELSE "")
      [] e.op = "iid_to_item" -> First2(OkTag(e, D(e).ids), IF D(e).ids THEN If(e.num \in ToRaw(D(e).imap, D(e), "item", e.arg), "iid_to_item") ELSE "")
      [] e.op = "user_vec" -> VecClause(e, D(e).umap, "uid", "iid", "user")
      [] e.op = "item_vec" -> VecClause(e, D(e).imap, "iid", "uid", "item")
      [] OTHER -> "unknown event"
      

TraceDone == l > Len(Ops) /\ verdict = "run" /\ PrintT(<<"VERDICT", tr, TRUE, "", 0>>) /\ verdict' = "ok" /\ UNCHANGED <<vars, tr, l>>

Expected(e) ==
    CASE e.op \in {"values", "unique", "count_unique"} -> ToString(D(e))
      [] e.op \in {"select_one", "exists"} -> ToString(<<D(e), FirstMatch(D(e), e.q)>>)
      [] e.op = "pull" -> ToString(gens[e.g])
      [] e.op \in {"close", "closegen"} -> ""
      [] OTHER -> ToString(D(e))

\* an operation that was (rightly) refused changes nothing
Step(e) ==
    IF ~Ok(e) THEN UNCHANGED <<inst, gens>>
    ELSE CASE e.op = "copy" -> DoCopy(e.i, e.j)
           [] e.op = "select" -> DoSelect(e.i, e.j, e.q)
           [] e.op = "unique" -> DoUnique(e.i, e.j, ColsOf(e))
           [] e.op = "drop" -> DoDrop(e.i, e.j, e.rids, e.keep)
           [] e.op = "apply" -> DoApply(e.i, e.col, e.f)
           [] e.op = "assign" -> DoAssign(e.i)
           [] e.op = "remove" -> DoRemove(e.i)
           [] e.op = "close" -> DoClose(e.i)
           [] e.op = "open" -> inst[e.i].open /\ ~gens[e.g].open /\ UNCHANGED inst
                               /\ gens' = [gens EXCEPT ![e.g] = [open |-> TRUE, owner |-> e.i, rest |-> SubSeq(D(e).rows, 2, Len(D(e).rows))]]
           [] e.op = "pull" -> DoPull(e.g, e.n)
           [] e.op = "closegen" -> DoCloseGen(e.g)
           [] OTHER -> UNCHANGED <<inst, gens>>

TraceStep ==
    /\ l <= Len(Ops) /\ verdict = "run"
    /\ LET e == Ops[l]
           c == Clause(e)
       IN IF c = ""
          THEN Step(e) /\ l' = l + 1 /\ UNCHANGED verdict
          ELSE /\ PrintT(<<"VERDICT", tr, FALSE, c, l>>)
               /\ PrintT("DIAG [" \o ToString(tr) \o "] " \o Expected(e))
               /\ verdict' = "rejected" /\ UNCHANGED <<inst, gens, l>>
    /\ UNCHANGED <<tr, op, steps>>

TraceNext == TraceStep \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceWellFormed == \A i \in Insts : inst[i].open => WellFormed(inst[i])
=============================================================================
