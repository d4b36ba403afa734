SPECIFICATION Spec
CONSTANTS
  MaxEpochs = 5
  MaxFreq = 3
  Bug = "none"
INVARIANTS Epochs Restored Callbacks CalledOrdered HistoryComplete BestSeen NoTraining
PROPERTY Terminates
CHECK_DEADLOCK FALSE
