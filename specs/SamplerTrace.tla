---------------------------- MODULE SamplerTrace ----------------------------
(* Samples drawn from the real generators and samplers.                        *)
EXTENDS TraceBase, Sampler

ToRow(cols, vals) == [c \in SetOf(cols) |-> vals[IndexOf(cols, c)]]
Start0(t) == Instance(Append(t.cols, "rid"), [k \in DOMAIN t.rows |-> ToRow(Append(t.cols, "rid"), Append(t.rows[k], k - 1))])

Prepared(s, e) == s.ids /\ s.rows # <<>>
RowsIn(e, rs) == [k \in DOMAIN rs |-> IF Len(rs[k]) = Len(e.cols) THEN ToRow(e.cols, rs[k]) ELSE <<>>]

Random(s, e) ==
    LET allowed == {r \in RowSet(s) : Holds(r, e.q)}
    IN IF ~Prepared(s, e) \/ allowed = {} THEN If(e.err, "missing error")
       ELSE IF e.err THEN "unexpected error"
       ELSE IF SetOf(e.cols) # SetOf(s.cols) THEN "columns of the record"
       ELSE LET got == RowsIn(e, e.recs)
            IN IF Len(got) # e.n THEN "number of records"
               ELSE IF ~(SetOf(got) \subseteq allowed) THEN "a record that does not satisfy the query"
               ELSE If(e.exhaustive => SetOf(got) = allowed, "unreachable records")
Null(s, e) ==
    IF ~Prepared(s, e) THEN If(e.err, "missing error")
    ELSE IF e.err THEN "unexpected error"
    ELSE IF Len(e.pairs) # e.n THEN "number of pairs"
    ELSE IF ~(SetOf(e.pairs) \subseteq NullPairs(s, e.thr)) THEN "not a null pair"
    ELSE If(e.exhaustive => SetOf(e.pairs) = NullPairs(s, e.thr), "unreachable null pairs")
Point(s, e) ==
    IF ~Prepared(s, e) THEN If(e.err, "missing error")
    ELSE IF PositiveRows(s, e.thr) = {} THEN ""
    ELSE IF e.err THEN "unexpected error"
    ELSE IF Len(e.triples) # e.n THEN "number of triples"
    ELSE LET got == SetOf(e.triples)
             allowed == CASE e.what = "positive" -> PositiveTriples(s, e.thr)
                          [] e.what = "negative" -> NegativeTriples(s, e.thr)
                          [] OTHER -> Triples(s, e.thr, e.ratio)
         IN IF ~(got \subseteq allowed) THEN "not a positive or negative triple"
            ELSE IF e.exhaustive /\ e.what = "mixed" /\ e.ratio > 0 /\ got \cap NegativeTriples(s, e.thr) = {} THEN "no negative triple"
            ELSE IF e.exhaustive /\ e.what = "mixed" /\ got \cap PositiveTriples(s, e.thr) = {} THEN "no positive triple"
            ELSE IF e.exhaustive /\ e.what = "mixed" /\ \A x \in PositiveTriples(s, e.thr) : x[3] # 0
                    /\ LET neg == Cardinality({k \in DOMAIN e.triples : e.triples[k][3] = 0})
                           off == neg * (e.ratio + 1) - e.ratio * e.n
                       IN off > 55 * (e.ratio + 1) \/ -off > 55 * (e.ratio + 1) THEN "proportion of negative triples"
            ELSE If(e.exhaustive /\ e.ratio <= 1 => got = allowed, "unreachable triples")
List(s, e) ==
    IF ~s.ids THEN If(e.err, "missing error")
    ELSE LET keys == GroupKeys(s, e.p) good == QualifyingKeys(s, e.p)
         IN IF good = {} THEN If(e.err, "missing error")
            ELSE IF e.err THEN If(5 * Cardinality(good) < 3 * Cardinality(keys), "unexpected error")
            ELSE IF Len(e.els) # e.n THEN "number of elements"
            ELSE IF SetOf(e.cols) # SetOf(s.cols) THEN "columns of the records"
            ELSE LET els == [k \in DOMAIN e.els |-> [pos |-> RowsIn(e, e.els[k].pos), tgt |-> RowsIn(e, e.els[k].tgt), neg |-> e.els[k].neg]]
                     bad == FirstOf([k \in DOMAIN els |-> ElementClause(s, els[k], e.p)])
                 IN IF bad # "" \/ ~e.exhaustive THEN bad ELSE ReachClause(s, els, e.p)

Clause0(s, e) ==
    CASE e.op \in {"select", "drop", "assign", "remove"} -> If(~e.err, "unexpected error")
      [] e.op = "random" -> Random(s, e)
      [] e.op = "null" -> Null(s, e)
      [] e.op = "point" -> Point(s, e)
      [] e.op = "list" -> List(s, e)
      [] e.op = "rows" -> If(e.cols = s.cols /\ e.rows = ProjectAll(s.rows, s.cols), "sampling changed the dataset")
Step0(s, e) ==
    CASE e.op = "select" -> Select(s, e.q)
      [] e.op = "drop" -> Drop(s, e.rids, FALSE)
      [] e.op = "assign" -> AssignIds(s)
      [] e.op = "remove" -> RemoveIds(s)
      [] OTHER -> s
Expected0(s, e) == s
=============================================================================
