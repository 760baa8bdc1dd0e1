SPECIFICATION Spec
CONSTANTS
  N = 4
  CertN = 3
INVARIANTS Certified Involution InOrbit Simple
CHECK_DEADLOCK FALSE
