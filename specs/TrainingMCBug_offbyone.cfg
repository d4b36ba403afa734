SPECIFICATION Spec
CONSTANTS
  MaxEpochs = 3
  MaxFreq = 2
  Bug = "offbyone"
INVARIANTS Restored
CHECK_DEADLOCK FALSE
