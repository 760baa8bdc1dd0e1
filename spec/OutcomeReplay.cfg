SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- OInit
  Step <- OStep
CHECK_DEADLOCK FALSE
