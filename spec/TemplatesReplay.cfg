SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- QInit
  Step <- QStep
CHECK_DEADLOCK FALSE
