SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Depth = 3
  Bug = "none"
INVARIANT Deterministic
CHECK_DEADLOCK FALSE
