SPECIFICATION TraceSpec
CONSTANTS
  Start <- Start0
  Clause <- Clause0
  Step <- Step0
  Expected <- Expected0
CHECK_DEADLOCK FALSE
