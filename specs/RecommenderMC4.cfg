SPECIFICATION Spec
CONSTANTS
  NItems = 4
  Mode = "ok"
INVARIANT Correct
CHECK_DEADLOCK FALSE
