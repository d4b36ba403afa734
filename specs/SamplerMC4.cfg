SPECIFICATION Spec
CONSTANTS
  NRows = 4
  Vals = {1, 3}
INVARIANTS Disjoint Complete Achievable Rejected
CHECK_DEADLOCK FALSE
