------------------------------ MODULE KNNTrace ------------------------------
(* Recorded calls of real KNN models: the laws of the query interface, and     *)
(* every prediction from the neighbourhood definition.                         *)
EXTENDS RecommenderTrace, KNN

Start1(t) == [z |-> NoModel, p |-> <<>>, T |-> <<>>]
Clause1(s, e) ==
    LET base == Clause0(s.z, e)
    IN IF base # "" THEN base
       ELSE IF s.z.fitted /\ e.op = "predict" /\ e.u \in s.z.users /\ e.i \in s.z.items
            THEN If(\E y \in Predictions(s.p, s.T, e.u, e.i) : IF y[1] = NoValue THEN e.v = None ELSE e.v # None /\ y[1] * 100 - 2 <= e.v /\ e.v <= y[2] * 100 + 2, "prediction differs from the neighbourhood definition")
            ELSE ""
Step1(s, e) == IF e.op = "fit" THEN [z |-> Step0(s.z, e), p |-> e.p, T |-> Table(e.p)] ELSE [s EXCEPT !.z = Step0(@, e)]
Expected1(s, e) == IF s.z.fitted /\ e.op = "predict" /\ e.u \in s.z.users /\ e.i \in s.z.items
                   THEN <<Predictions(s.p, s.T, e.u, e.i), s.T>> ELSE Expected0(s.z, e)
=============================================================================
