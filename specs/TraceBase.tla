------------------------------ MODULE TraceBase ------------------------------
(* Frame of the trace specifications: a recorded history is a sequence of      *)
(* events (what was called and everything the caller observed). Each event     *)
(* must be the transition the system specification prescribes: Clause gives    *)
(* "" or the name of the violated clause, Step the next abstract state.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_), Clause(_, _), Step(_, _), Expected(_, _)

VARIABLES tr, l, st, verdict
tvars == <<tr, l, st, verdict>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ops == Traces[tr].ops

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = Start(Traces[tr]) /\ verdict = "run"

TraceDone == l > Len(Ops) /\ verdict = "run" /\ PrintT(<<"VERDICT", tr, TRUE, "", 0>>) /\ verdict' = "ok" /\ UNCHANGED <<tr, l, st>>

TraceStep ==
    /\ l <= Len(Ops) /\ verdict = "run"
    /\ LET e == Ops[l]
           c == Clause(st, e)
       IN IF c = ""
          THEN st' = Step(st, e) /\ l' = l + 1 /\ UNCHANGED verdict
          ELSE /\ PrintT(<<"VERDICT", tr, FALSE, c, l>>)
               /\ PrintT("DIAG [" \o ToString(tr) \o "] " \o ToString(Expected(st, e)))
               /\ verdict' = "rejected" /\ UNCHANGED <<st, l>>
    /\ UNCHANGED tr

TraceNext == TraceStep \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* helpers of the clauses
If(c, name) == IF c THEN "" ELSE name
FirstOf(clauses) ==
    LET bad == {i \in DOMAIN clauses : clauses[i] # ""}
    IN IF bad = {} THEN "" ELSE clauses[CHOOSE i \in bad : \A j \in bad : i <= j]
=============================================================================
