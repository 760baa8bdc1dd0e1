SPECIFICATION Spec
CONSTANTS
  Depth0 = 4
  Gen = FALSE
CONSTRAINT Bound
INVARIANTS OrderLegal ControlsAfterReads AttributesPartition
CHECK_DEADLOCK FALSE
