SPECIFICATION Spec
CONSTANTS
  NItems = 3
  Mode = "noveltylate"
INVARIANT Correct
CHECK_DEADLOCK FALSE
