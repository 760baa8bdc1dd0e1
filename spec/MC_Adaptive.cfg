SPECIFICATION ASpec
CONSTANTS
  N = 4
  K = {1, 2}
  AngleSet <- Angles2
INVARIANTS AdaptiveDeterministic ReadsThePast
CHECK_DEADLOCK FALSE
