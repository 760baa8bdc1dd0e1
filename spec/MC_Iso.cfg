SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
INVARIANTS Agrees Symmetric RenamedSame
CHECK_DEADLOCK FALSE
