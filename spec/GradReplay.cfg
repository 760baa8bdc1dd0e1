SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- DInit
  Step <- DStep
CHECK_DEADLOCK FALSE
