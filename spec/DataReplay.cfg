SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- DTInit
  Step <- DTStep
CHECK_DEADLOCK FALSE
