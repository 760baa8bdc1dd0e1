SPECIFICATION Spec
CONSTANTS
  N = 3
  Angs = {1, 2, 4, 7}
INVARIANTS SeqMeaning ParMeaning NothingLost FlowsCompose
CHECK_DEADLOCK FALSE
