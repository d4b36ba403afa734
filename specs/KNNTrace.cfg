SPECIFICATION TraceSpec
CONSTANTS
  Start <- Start1
  Clause <- Clause1
  Step <- Step1
  Expected <- Expected1
CHECK_DEADLOCK FALSE
