SPECIFICATION Spec
CONSTANTS
  Paths = {1, 2}
  Insts = {1, 2}
  Tables <- MCTables
  Broken = "inplace"
INVARIANTS Atomic NeverPartial Progress
PROPERTIES Untouched Saved
CHECK_DEADLOCK FALSE
