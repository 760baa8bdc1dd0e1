SPECIFICATION ReplaySpec
CHECK_DEADLOCK FALSE
CONSTANT InitSt <- CInit
CONSTANT Step <- CStep
