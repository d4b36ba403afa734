SPECIFICATION Spec
CONSTANTS
  NItems = 3
  Mode = "thresholdstrict"
INVARIANT Correct
CHECK_DEADLOCK FALSE
