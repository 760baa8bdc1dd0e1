SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- RInit
  Step <- RStep
CHECK_DEADLOCK FALSE
