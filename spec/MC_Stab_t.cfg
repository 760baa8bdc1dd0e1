SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxGens = 3
INVARIANTS Commuting Independent UniqueGenerator Closure
CHECK_DEADLOCK FALSE
