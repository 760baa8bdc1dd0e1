SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 3
  M = 0
  Longest = 3
INVARIANTS Implements Unitary
CHECK_DEADLOCK FALSE
