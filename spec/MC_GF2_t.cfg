SPECIFICATION Spec
CONSTANTS
  R = 3
  C = 4
INVARIANTS Decides
CHECK_DEADLOCK FALSE
