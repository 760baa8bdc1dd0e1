SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxW = 3
  MaxL = 2
  MaxQ = 5
  MaxS = 2
INVARIANTS Counts Flows Ends2
CHECK_DEADLOCK FALSE
