SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- LInit
  Step <- LStep
CHECK_DEADLOCK FALSE
