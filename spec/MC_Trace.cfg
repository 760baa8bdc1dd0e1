SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS Nothing Everything KeepsTrace InSteps Units
CHECK_DEADLOCK FALSE
