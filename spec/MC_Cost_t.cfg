SPECIFICATION Spec
CONSTANTS
  N = 5
  K = {2}
  AngleSet <- AnglesA
INVARIANTS NormConstant DegreeOne ShiftFree
CHECK_DEADLOCK FALSE
