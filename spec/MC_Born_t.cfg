SPECIFICATION Spec
CONSTANTS
  N = 4
  K = {1, 2}
  AngleSet <- Angles1
INVARIANTS NothingLeaks WeightsAddUp
CHECK_DEADLOCK FALSE
