SPECIFICATION Spec
CONSTANTS
  NRows = 3
  Vals = {1, 3}
INVARIANTS Disjoint Complete Achievable Rejected
CHECK_DEADLOCK FALSE
