SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- IInit
  Step <- IStep
CHECK_DEADLOCK FALSE
