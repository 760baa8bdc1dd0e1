SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- BInit
  Step <- BStep
CHECK_DEADLOCK FALSE
