SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- HInit
  Step <- HStep
CHECK_DEADLOCK FALSE
