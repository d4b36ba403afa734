SPECIFICATION Spec
CONSTANTS
  NItems = 3
  Mode = "nonescored"
INVARIANT Correct
CHECK_DEADLOCK FALSE
