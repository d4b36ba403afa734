SPECIFICATION Spec
CONSTANTS
  MaxEpochs = 3
  MaxFreq = 2
  Bug = "stale"
INVARIANTS Restored
CHECK_DEADLOCK FALSE
