SPECIFICATION Spec
CONSTANTS MaxLines = 8
 MaxChunk = 9
 Broken = "none"
INVARIANTS Complete Consecutive
PROPERTY Ends
CHECK_DEADLOCK FALSE
