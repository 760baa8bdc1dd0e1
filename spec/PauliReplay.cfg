SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- PInit
  Step <- PStep
CHECK_DEADLOCK FALSE
