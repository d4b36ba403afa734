SPECIFICATION Spec
CONSTANTS
  NUsers = 3
  NWorkers = 2
  MaxFail = 2
  Bug = "nolock"
INVARIANT Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
