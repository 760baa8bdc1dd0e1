SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- GInit
  Step <- GStep
CHECK_DEADLOCK FALSE
