SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxQ = 6
INVARIANTS SplitCounts SplitKeeps SplitOrdered WholeOrNothing
CHECK_DEADLOCK FALSE
