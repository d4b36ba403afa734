SPECIFICATION Spec
CONSTANTS
  Insts = {1, 2}
  Gens = {1}
  BaseCols <- MCCols
  BaseTables <- MCTables
  QueryVals <- MCVals
  MaxSteps = 3
VIEW View
INVARIANTS AllWellFormed SubsetOfBase RoundTrip VectorTotal VectorTranspose
PROPERTY Isolation
CHECK_DEADLOCK FALSE
