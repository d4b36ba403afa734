SPECIFICATION Spec
CONSTANTS MaxLines = 5
 MaxChunk = 4
 Broken = "none"
INVARIANTS Complete Consecutive
PROPERTY Ends
CHECK_DEADLOCK FALSE
