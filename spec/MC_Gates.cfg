SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS Involutions Symmetric ThreeCnots CnotIsHCzH Others Squares TwoQubit SinglesCommute
CHECK_DEADLOCK FALSE
