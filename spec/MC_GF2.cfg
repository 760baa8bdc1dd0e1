SPECIFICATION Spec
CONSTANTS
  R = 2
  C = 3
INVARIANTS Decides
CHECK_DEADLOCK FALSE
