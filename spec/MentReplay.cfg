SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- MInit
  Step <- MStep
CHECK_DEADLOCK FALSE
