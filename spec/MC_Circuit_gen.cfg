SPECIFICATION Spec
CONSTANTS
  Depth0 = 8
  Gen = TRUE
INVARIANTS OrderLegal
CHECK_DEADLOCK FALSE
