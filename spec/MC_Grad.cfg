SPECIFICATION Spec
CONSTANTS
  K = 2
  Points = {0,1}
INVARIANTS ShiftRule ShiftHessian Symmetric Central OneSided Hessians
CHECK_DEADLOCK FALSE
