SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxQ = 8
INVARIANTS SplitCounts SplitKeeps SplitOrdered WholeOrNothing
CHECK_DEADLOCK FALSE
