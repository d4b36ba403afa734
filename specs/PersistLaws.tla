----------------------------- MODULE PersistLaws -----------------------------
(* Contents of files and what a reader may find after a save was attempted.    *)
EXTENDS Sequences

Absent == [there |-> FALSE, full |-> FALSE, rows |-> <<>>]
Full(r) == [there |-> TRUE, full |-> TRUE, rows |-> r]
Partial(r) == [there |-> TRUE, full |-> FALSE, rows |-> r]
\* before: contents of the file when the save of r starts
Allowed(before, r) == {before, Full(r)}
=============================================================================
