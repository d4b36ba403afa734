------------------------------ MODULE SamplerMC ------------------------------
(* Laws of the definitions over every small dataset: positives and negatives   *)
(* never coincide, nothing else exists, and every qualifying group has an      *)
(* allowed element.                                                            *)
EXTENDS Sampler
CONSTANTS NRows, Vals
VARIABLE raw
Init == raw = <<>>
Next == /\ Len(raw) < NRows
        /\ \E u \in 0..1, i \in 0..2, v \in Vals : raw' = Append(raw, [user |-> u, item |-> i, interaction |-> v, rid |-> Len(raw)])
Spec == Init /\ [][Next]_raw
D == AssignIds(Instance(<<"user", "item", "interaction", "rid">>, raw))
Thrs == Vals \cup {NoThr}
NoRepeats == Cardinality(RatedPairs(D)) = Len(raw)
Disjoint == (raw # <<>> /\ NoRepeats) => \A t \in Thrs : {<<x[1], x[2]>> : x \in PositiveTriples(D, t)} \cap NullPairs(D, t) = {}
Complete == raw # <<>> => \A t \in Thrs : {<<x[1], x[2]>> : x \in PositiveTriples(D, t)} \cup NullPairs(D, t) = KnownPairs(D)
P(t) == [gcols |-> <<"user">>, thr |-> t, sort |-> "", min |-> 1, max |-> 1, targets |-> 1, ratio |-> 1, negcol |-> "iid"]
\* a qualifying group always admits an element (taking its first min records, the following targets and some negatives)
Sorted(G) == [k \in 1..Cardinality(G) |-> CHOOSE r \in G : Position(G, r, "") = k]
Achievable == raw # <<>> => \A t \in Thrs : \A r \in RowSet(D) :
    LET G == GroupRows(D, <<"user">>, r, t) p == P(t)
    IN Qualifies(D, G, p) => \E n \in NegativeIds(D, G, "iid") :
        ElementClause(D, [pos |-> <<Sorted(G)[1]>>, tgt |-> <<Sorted(G)[2]>>, neg |-> <<n>>], p) = ""
Rejected == raw # <<>> => \A t \in Thrs : \A r \in RowSet(D) :
    LET G == GroupRows(D, <<"user">>, r, t) p == P(t)
    IN (Qualifies(D, G, p) /\ Cardinality(G) > 2) => \A n \in NegativeIds(D, G, "iid") :
        /\ ElementClause(D, [pos |-> <<Sorted(G)[1]>>, tgt |-> <<Sorted(G)[3]>>, neg |-> <<n>>], p) # ""
        /\ ElementClause(D, [pos |-> <<Sorted(G)[1]>>, tgt |-> <<Sorted(G)[2]>>, neg |-> <<Sorted(G)[3]["iid"]>>], p) # ""
=============================================================================
