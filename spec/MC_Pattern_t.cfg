SPECIFICATION Spec
CONSTANTS
  N = 5
  K = {1, 2}
  AngleSet <- Angles2
INVARIANTS Deterministic CorrectionsAlive WindowsAgree
CHECK_DEADLOCK FALSE
