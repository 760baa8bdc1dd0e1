SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3, 4}
INVARIANTS Agrees Symmetric RenamedSame
CHECK_DEADLOCK FALSE
