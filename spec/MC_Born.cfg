SPECIFICATION Spec
CONSTANTS
  N = 3
  K = {0, 1, 2}
  AngleSet <- Angles1
INVARIANTS NothingLeaks WeightsAddUp
CHECK_DEADLOCK FALSE
