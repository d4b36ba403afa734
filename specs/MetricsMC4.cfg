SPECIFICATION Spec
CONSTANTS
  MaxItem = 4
  MaxLen = 4
  MaxRel = 2
INVARIANTS Ranges RecallGrows Between APPerfect APZero BestDCG IdealNDCG
CHECK_DEADLOCK FALSE
