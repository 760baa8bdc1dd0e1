SPECIFICATION Spec
CONSTANTS
  Depth0 = 6
  Gen = FALSE
CONSTRAINT Bound
INVARIANTS OrderLegal ControlsAfterReads AttributesPartition
CHECK_DEADLOCK FALSE
