SPECIFICATION Spec
CONSTANTS
  MaxEpochs = 3
  MaxFreq = 2
  Bug = "none"
INVARIANTS Epochs Restored Callbacks CalledOrdered HistoryComplete BestSeen NoTraining
PROPERTY Terminates
CHECK_DEADLOCK FALSE
