SPECIFICATION Spec
CONSTANTS
  NItems = 3
  Mode = "ok"
INVARIANT Correct
CHECK_DEADLOCK FALSE
