SPECIFICATION Spec
CONSTANTS
  MaxItem = 3
  MaxLen = 3
  MaxRel = 2
INVARIANTS Ranges RecallGrows Between APPerfect APZero BestDCG IdealNDCG
CHECK_DEADLOCK FALSE
