--------------------------- MODULE SimilarityTrace ---------------------------
(* Results of the real similarity functions; values arrive as                  *)
(* <<sign, floor of 10^8 times the value (its square for cosine like ones)>>.  *)
EXTENDS TraceBase, Similarity
Start0(t) == 0
Step0(s, e) == 0
N(e) == DOMAIN e.m
Wrong(e) == {ij \in N(e) \X N(e) :
    LET s == Sim(e.op, e.m, ij[1], ij[2])
        r == e.res[ij[1]][ij[2]]
    IN (s[1] # r[1] /\ (s[1] * r[1] < 0 \/ r[2] > 2 \/ Decimal(s[2], 8) > 2)) \/ Abs(Decimal(s[2], 8) - r[2]) > 3}
Clause0(s, e) ==
    IF e.changed THEN "the input was modified"
    ELSE IF e.err THEN "unexpected error"
    ELSE IF ~e.shape THEN "shape of the result"
    ELSE If(Wrong(e) = {}, e.op)
Expected0(s, e) == IF e.err \/ ~e.shape THEN <<>> ELSE {<<ij, Sim(e.op, e.m, ij[1], ij[2]), e.res[ij[1]][ij[2]]>> : ij \in Wrong(e)}
=============================================================================
