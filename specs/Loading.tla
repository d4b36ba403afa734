------------------------------- MODULE Loading -------------------------------
(* The reader: lines are taken one by one, the header is skipped, full chunks  *)
(* are parsed and appended with consecutive record ids, blank lines hold no    *)
(* record. Lines: >0 record, 0 blank, -1 header. Broken selects a defective    *)
(* variant.                                                                    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxLines, MaxChunk, Broken

VARIABLES file, header, size, pos, chunk, out, n, done
vars == <<file, header, size, pos, chunk, out, n, done>>

Head0 == 0 - 1
Bodies == UNION {[1..k -> 0..2] : k \in 0..MaxLines}
Init == /\ header \in BOOLEAN /\ size \in 1..MaxChunk
        /\ \E b \in Bodies : file = (IF header THEN <<Head0>> ELSE <<>>) \o b
        /\ pos = 1 /\ chunk = <<>> /\ out = <<>> /\ n = 0 /\ done = FALSE

IsRecord(x) == x # 0 \/ Broken = "blank"
Parsed(c) == SelectSeq(IF Broken = "header" /\ header /\ c # <<>> THEN Tail(c) ELSE c, IsRecord)
Rows(c, from) == [i \in 1..Len(Parsed(c)) |-> <<(IF Broken = "restart" THEN 0 ELSE from) + i - 1, Parsed(c)[i]>>]
Flush(c) == out' = out \o Rows(c, n) /\ n' = n + Len(Parsed(c))

Skip == pos = 1 /\ header /\ Broken # "header" /\ file # <<>> /\ file[1] = Head0 /\ pos' = 2 /\ UNCHANGED <<file, header, size, chunk, out, n, done>>
Read == /\ ~done /\ pos <= Len(file) /\ (file[pos] # Head0 \/ Broken = "header")
        /\ LET c == Append(chunk, file[pos]) IN
           IF Len(c) = size THEN chunk' = <<>> /\ Flush(c) ELSE chunk' = c /\ UNCHANGED <<out, n>>
        /\ pos' = pos + 1 /\ UNCHANGED <<file, header, size, done>>
End == /\ ~done /\ pos > Len(file) /\ done' = TRUE
       /\ (IF chunk # <<>> /\ Broken # "last" THEN Flush(chunk) ELSE UNCHANGED <<out, n>>)
       /\ UNCHANGED <<file, header, size, pos, chunk>>
Next == Skip \/ Read \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Wanted == SelectSeq(file, LAMBDA x : x > 0)
\* every record once, in order, with record ids 0..n-1, whatever the chunk size
Complete == done => out = [i \in 1..Len(Wanted) |-> <<i - 1, Wanted[i]>>]
Consecutive == \A i \in DOMAIN out : out[i][1] = i - 1
Ends == <>done
=============================================================================
