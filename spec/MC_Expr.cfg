SPECIFICATION Spec
CONSTANTS
  K = 1
  Entries <- EntriesA
INVARIANTS TwoDesign NoneLost
CHECK_DEADLOCK FALSE
