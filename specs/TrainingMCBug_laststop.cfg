SPECIFICATION Spec
CONSTANTS
  MaxEpochs = 3
  MaxFreq = 2
  Bug = "laststop"
INVARIANTS Restored
CHECK_DEADLOCK FALSE
