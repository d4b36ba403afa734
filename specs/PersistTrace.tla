---------------------------- MODULE PersistTrace ----------------------------
(* Recorded histories of datasets and files: the operations of DatasetTrace    *)
(* plus saving, loading and looking at files. A file is changed by a save to   *)
(* it and by nothing else; loading gives the saved rows, renumbered.           *)
EXTENDS DatasetTrace

VARIABLES files, src
pvars == <<tvars, files, src>>

NoFile == [there |-> FALSE, fmt |-> "", cols |-> <<>>, rows |-> <<>>, header |-> FALSE]
Required == <<"user", "item", "interaction">>
RawCols(cols) == SelectSeq(cols, LAMBDA c : c \notin {"rid", "uid", "iid"})
PInit == TraceInit /\ files = [p \in 1..6 |-> NoFile] /\ src = [i \in Insts |-> 0]

InUse(p, i) == \E k \in Insts \ {i} : inst[k].open /\ src[k] = p
SaveDefined(e) == IF e.fmt = "csv" THEN NoUnknown(e) /\ (e.all \/ HasCols(D(e), e.cols)) ELSE HasCols(D(e), Required) /\ ~InUse(e.p, e.i)
SavedFile(e) ==
    LET cols == RawCols(IF e.fmt = "csv" THEN ColsOf(e) ELSE D(e).cols)
    IN [there |-> TRUE, fmt |-> e.fmt, cols |-> cols, rows |-> [k \in DOMAIN D(e).rows |-> Restrict(D(e).rows[k], SetOf(cols))], header |-> e.fmt = "csv" /\ e.header]
Renumber(rows) == [k \in DOMAIN rows |-> [c \in (DOMAIN rows[k]) \cup {"rid"} |-> IF c = "rid" THEN k - 1 ELSE rows[k][c]]]

FileClause(e) ==
    LET f == files[e.p]
    IN IF e.there # f.there THEN "existence of a file"
       ELSE IF ~f.there THEN ""
       ELSE IF e.broken THEN "a file cannot be read"
       ELSE IF SetOf(e.cols) # SetOf(f.cols) \/ Len(e.cols) # Len(f.cols) \/ (f.fmt = "csv" /\ e.cols # f.cols) THEN "columns of a file"
       ELSE IF e.res # ProjectAll(f.rows, e.cols) THEN "rows of a file"
       ELSE ""
LoadClause(e) ==
    LET f == files[e.p]
    IN IF ~f.there THEN OkTag(e, FALSE)
       ELSE IF ~Ok(e) THEN "unexpected error"
       ELSE IF SetOf(e.cols) # SetOf(f.cols) \cup {"rid"} \/ Len(e.cols) # Len(f.cols) + 1 \/ e.ids THEN "columns of a loaded file" ELSE ""

PClause(e) == CASE e.op = "save" -> OkTag(e, SaveDefined(e))
                [] e.op = "file" -> FileClause(e)
                [] e.op = "load" -> LoadClause(e)
                [] OTHER -> Clause(e)
\* a dataset saved onto the file it was loaded from shows the saved rows from then on
Own(e) == e.fmt = "sqlite" /\ src[e.i] = e.p
PStep(e) ==
    IF ~Ok(e) THEN UNCHANGED <<inst, gens, files, src>>
    ELSE CASE e.op = "save" -> /\ files' = [files EXCEPT ![e.p] = SavedFile(e)]
                               /\ inst' = IF Own(e) THEN [inst EXCEPT ![e.i].rows = Renumber(@)] ELSE inst
                               /\ UNCHANGED <<gens, src>>
           [] e.op = "load" -> /\ Put(e.j, Instance(e.cols, Renumber(files[e.p].rows)))
                               /\ src' = [src EXCEPT ![e.j] = IF files[e.p].fmt = "sqlite" THEN e.p ELSE 0]
                               /\ UNCHANGED <<gens, files>>
           [] e.op \in {"copy", "select", "unique", "drop"} /\ e.j # e.i -> Step(e) /\ src' = [src EXCEPT ![e.j] = src[e.i]] /\ UNCHANGED files
           [] e.op = "close" -> Step(e) /\ src' = [src EXCEPT ![e.i] = 0] /\ UNCHANGED files
           [] OTHER -> Step(e) /\ UNCHANGED <<files, src>>
PExpected(e) == CASE e.op \in {"file", "load"} -> ToString(files[e.p]) [] e.op = "save" -> ToString(<<D(e), src>>) [] OTHER -> Expected(e)

PTraceStep ==
    /\ l <= Len(Ops) /\ verdict = "run"
    /\ LET e == Ops[l]
           c == PClause(e)
       IN IF c = ""
          THEN PStep(e) /\ l' = l + 1 /\ UNCHANGED verdict
          ELSE /\ PrintT(<<"VERDICT", tr, FALSE, c, l>>)
               /\ PrintT("DIAG [" \o ToString(tr) \o "] " \o PExpected(e))
               /\ verdict' = "rejected" /\ UNCHANGED <<inst, gens, l, files, src>>
    /\ UNCHANGED <<tr, op, steps>>
PNext == PTraceStep \/ (TraceDone /\ UNCHANGED <<files, src>>)
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
