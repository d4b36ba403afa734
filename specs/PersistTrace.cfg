SPECIFICATION PSpec
CONSTANTS
  Insts <- TInst
  Gens <- TGens
  BaseCols <- TCols
  BaseTables <- TNone
  QueryVals <- TNone
  MaxSteps = 0
INVARIANT TraceWellFormed
CHECK_DEADLOCK FALSE
