SPECIFICATION Spec
CONSTANTS
  Insts = {1, 2}
  Rids = {1, 2}
  Vals = {0, 1}
  MaxTables = 3
  Persisted = TRUE
  Bug = "persisted"
INVARIANT Transparent
PROPERTIES IterStable SavedUntouched
CHECK_DEADLOCK FALSE
