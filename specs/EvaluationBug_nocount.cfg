SPECIFICATION Spec
CONSTANTS
  NUsers = 3
  NWorkers = 2
  MaxFail = 2
  Bug = "nocount"
INVARIANT Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
