SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxW = 3
  MaxL = 1
  MaxQ = 4
  MaxS = 1
INVARIANTS Counts Flows Ends2
CHECK_DEADLOCK FALSE
