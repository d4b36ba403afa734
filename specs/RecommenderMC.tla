---------------------------- MODULE RecommenderMC ----------------------------
(* The selection as it is computed (filter, score, n largest of <<score,item>> *)
(* pairs, threshold last) against the laws, for every score table, history and *)
(* option of a small universe. Mode names the deliberately broken variants.    *)
EXTENDS Recommender, TLC, SequencesExt, FiniteSetsExt

CONSTANTS NItems, Mode
VARIABLES m, asked, n, novelty, th, res
vars == <<m, asked, n, novelty, th, res>>
U == 1
Its == 1..NItems
Scores == {None, 1, 2, 3}

Larger(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Largest(k, S) == LET s == SetToSortSeq(S, Larger) IN SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Pairs(S) == {<<m.score[<<U, i>>], i>> : i \in S}
Compute ==
    LET cand == IF novelty /\ Mode # "noveltylate" THEN asked \ Seen(m, U) ELSE asked
        sel == {p \in Pairs(cand) : p[1] # None \/ Mode = "nonescored"}
        pre == IF Mode = "thresholdstrict" THEN {p \in sel : p[1] > th} ELSE sel
        top == Largest(n, pre)
        late == IF Mode = "noveltylate" /\ novelty THEN SelectSeq(top, LAMBDA p : p[2] \notin Seen(m, U)) ELSE top
    IN IF th = NoThreshold THEN late ELSE SelectSeq(late, LAMBDA p : p[1] >= th)

Init ==
    /\ \E sc \in [Its -> Scores], seen \in SUBSET Its :
        m = [tol |-> 0, users |-> {U}, items |-> Its, seen |-> {<<U, i>> : i \in seen}, score |-> [p \in {U} \X Its |-> sc[p[2]]]]
    /\ asked = {} /\ n = 0 /\ novelty = FALSE /\ th = NoThreshold /\ res = <<>>
Ask ==
    /\ asked = {} /\ n = 0
    /\ asked' \in SUBSET Its /\ n' \in 0..NItems /\ novelty' \in BOOLEAN /\ th' \in {NoThreshold, 2}
    /\ UNCHANGED m /\ res' = Compute'
Spec == Init /\ [][Ask]_vars
\* rank: any items, no threshold; recommend: all items
Correct == (asked = Its => RecommendClause(m, U, n, novelty, th, res) = "") /\ (th = NoThreshold => RankClause(m, U, asked, n, novelty, res) = "")
=============================================================================
