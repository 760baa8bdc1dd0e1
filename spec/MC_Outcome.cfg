SPECIFICATION Spec
CONSTANTS
  Nodes = {0, 1}
  Consts = {0, 1, 2}
  Depth = 1
INVARIANTS BitValued ReadsSound ReadsComplete Laws
CHECK_DEADLOCK FALSE
