SPECIFICATION Spec
CONSTANTS
  Paths = {1}
  Insts = {1, 2}
  Tables <- MCTables
  Broken = "none"
INVARIANTS Atomic NeverPartial Progress
PROPERTIES Untouched Saved
CHECK_DEADLOCK FALSE
