SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Nothing Everything KeepsTrace InSteps Units
CHECK_DEADLOCK FALSE
