SPECIFICATION Spec
CONSTANTS
  K = 2
  Entries <- EntriesB
INVARIANTS TwoDesign NoneLost
CHECK_DEADLOCK FALSE
