SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxGens = 2
INVARIANTS Commuting Independent UniqueGenerator Closure
CHECK_DEADLOCK FALSE
