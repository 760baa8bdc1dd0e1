SPECIFICATION ReplaySpec
CONSTANTS
  InitSt <- TInit
  Step <- TStep
CHECK_DEADLOCK FALSE
