SPECIFICATION Spec
CONSTANTS
  N = 4
  K = {1, 2}
  AngleSet <- AnglesB
INVARIANTS NormConstant DegreeOne ShiftFree
CHECK_DEADLOCK FALSE
