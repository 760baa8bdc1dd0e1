SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 7
  M = 1
  Longest = 4
INVARIANTS Implements Unitary
CHECK_DEADLOCK FALSE
