SPECIFICATION Spec
CONSTANTS MaxLines = 3
 MaxChunk = 4
 Broken = "blank"
INVARIANTS Complete Consecutive
CHECK_DEADLOCK FALSE
