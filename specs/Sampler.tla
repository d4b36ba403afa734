------------------------------- MODULE Sampler -------------------------------
(* What the generators and samplers may yield over a dataset with internal     *)
(* ids. NoThr: no interaction threshold. Sampling is nondeterministic: the     *)
(* definitions give the set of allowed outcomes.                               *)
EXTENDS DatasetOps

NoThr == -1999999000

Positive(r, thr) == thr = NoThr \/ r["interaction"] >= thr
RowSet(d) == {d.rows[i] : i \in DOMAIN d.rows}
PositiveRows(d, thr) == {r \in RowSet(d) : Positive(r, thr)}
\* internal ids up to the largest one in use are known
KnownPairs(d) == (0..MaxCol(d, "uid")) \X (0..MaxCol(d, "iid"))
RatedPairs(d) == {<<r["uid"], r["iid"]>> : r \in RowSet(d)}
BelowPairs(d, thr) == IF thr = NoThr THEN {} ELSE {<<r["uid"], r["iid"]>> : r \in {s \in RowSet(d) : s["interaction"] < thr}}
NullPairs(d, thr) == (KnownPairs(d) \ RatedPairs(d)) \cup BelowPairs(d, thr)

PositiveTriples(d, thr) == {<<r["uid"], r["iid"], r["interaction"]>> : r \in PositiveRows(d, thr)}
NegativeTriples(d, thr) == {<<p[1], p[2], 0>> : p \in NullPairs(d, thr)}
\* with n negatives per positive on average
Triples(d, thr, ratio) == PositiveTriples(d, thr) \cup (IF ratio = 0 THEN {} ELSE NegativeTriples(d, thr))

\* ---- sequences of related records
Before(a, b, sort) == IF sort = "" \/ a[sort] = b[sort] THEN a["rid"] < b["rid"] ELSE a[sort] < b[sort]
GroupRows(d, gcols, r, thr) == {s \in PositiveRows(d, thr) : \A i \in DOMAIN gcols : s[gcols[i]] = r[gcols[i]]}
Position(G, r, sort) == Cardinality({s \in G : Before(s, r, sort)}) + 1
NegativeIds(d, G, col) == ColumnValues(d.rows, col) \ {r[col] : r \in G}
\* p: gcols, thr, sort, min, max (0: unbounded), targets (0: none), ratio, negcol
Qualifies(d, G, p) ==
    /\ Cardinality(G) >= p.min + p.targets
    /\ p.targets > 0 => Cardinality(NegativeIds(d, G, p.negcol)) >= p.ratio * p.targets
Groups(d, p) == {GroupRows(d, p.gcols, r, p.thr) : r \in RowSet(d)}
\* groups are distinct values of the grouping columns, whether or not they have positive rows
GroupKeys(d, p) == {Project(r, p.gcols) : r \in RowSet(d)}
QualifyingKeys(d, p) == {Project(r, p.gcols) : r \in {s \in RowSet(d) : Qualifies(d, GroupRows(d, p.gcols, s, p.thr), p)}}

Contiguous(G, rows, sort) ==
    \A i \in 1..(Len(rows) - 1) :
        /\ Before(rows[i], rows[i + 1], sort)
        /\ \A s \in G : s = rows[i] \/ s = rows[i + 1] \/ ~(Before(rows[i], s, sort) /\ Before(s, rows[i + 1], sort))
\* as many positive records as allowed, starting anywhere
Window(G, p) == LET n == Cardinality(G) - p.targets IN IF p.max > 0 /\ n > p.max THEN p.max ELSE n
WindowStarts(G, p) == 1..(Cardinality(G) - p.targets - Window(G, p) + 1)
\* el: pos and tgt (sequences of rows), neg (sequence of ids)
ElementClause(d, el, p) ==
    LET all == el.pos \o el.tgt
        G == GroupRows(d, p.gcols, all[1], p.thr)
    IN IF Len(el.pos) < p.min THEN "too few positive records"
       ELSE IF p.max > 0 /\ Len(el.pos) > p.max THEN "too many positive records"
       ELSE IF Len(el.tgt) # p.targets THEN "number of target records"
       ELSE IF ~(SetOf(all) \subseteq RowSet(d)) THEN "not a record of the dataset"
       ELSE IF ~(SetOf(all) \subseteq G) THEN "not a positive record of the group"
       ELSE IF ~Contiguous(G, all, p.sort) THEN "order of the records"
       ELSE IF Len(el.pos) # Window(G, p) THEN "fewer records than allowed"
       ELSE IF Len(el.neg) # p.ratio * p.targets THEN "number of negative ids"
       ELSE IF Cardinality(SetOf(el.neg)) # Len(el.neg) THEN "repeated negative id"
       ELSE IF ~(SetOf(el.neg) \subseteq NegativeIds(d, G, p.negcol)) THEN "negative id of a positive record or unknown id"
       ELSE ""
\* els: many elements; all qualifying groups, windows and negative ids turn up
ReachClause(d, els, p) ==
    LET keys == QualifyingKeys(d, p)
        G(key) == GroupRows(d, p.gcols, CHOOSE r \in RowSet(d) : Project(r, p.gcols) = key, p.thr)
        of == [key \in keys |-> {i \in DOMAIN els : Project(els[i].pos[1], p.gcols) = key}]
    IN IF \E key \in keys : of[key] = {} THEN "a group that is never sampled"
       ELSE IF \E key \in keys : {Position(G(key), els[i].pos[1], p.sort) : i \in of[key]} # WindowStarts(G(key), p) THEN "records that are never sampled"
       ELSE IF p.ratio * p.targets > 0 /\ \E key \in keys : UNION {SetOf(els[i].neg) : i \in of[key]} # NegativeIds(d, G(key), p.negcol) THEN "a negative id that is never sampled"
       ELSE ""
=============================================================================
