SPECIFICATION GenSpec
CONSTANTS
  Insts = {1, 2, 3, 4}
  Gens = {1, 2}
  BaseCols <- MCCols
  BaseTables <- GenTables
  QueryVals <- MCVals
  MaxSteps = 12
  Conds <- GenConds
INVARIANT Emit
CHECK_DEADLOCK FALSE
