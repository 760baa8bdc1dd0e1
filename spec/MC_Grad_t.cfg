SPECIFICATION Spec
CONSTANTS
  K = 4
  Points = {0,1,3,6}
INVARIANTS ShiftRule ShiftHessian Symmetric Central OneSided Hessians
CHECK_DEADLOCK FALSE
