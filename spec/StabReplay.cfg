SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- SInit
  Step <- SStep
CHECK_DEADLOCK FALSE
