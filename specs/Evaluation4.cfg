SPECIFICATION Spec
CONSTANTS
  NUsers = 4
  NWorkers = 3
  MaxFail = 2
  Bug = "none"
INVARIANT Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
