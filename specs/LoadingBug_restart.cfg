SPECIFICATION Spec
CONSTANTS MaxLines = 3
 MaxChunk = 4
 Broken = "restart"
INVARIANTS Complete Consecutive
CHECK_DEADLOCK FALSE
