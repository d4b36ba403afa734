SPECIFICATION Spec
CONSTANTS MaxLines = 3
 MaxChunk = 4
 Broken = "header"
INVARIANTS Complete Consecutive
CHECK_DEADLOCK FALSE
