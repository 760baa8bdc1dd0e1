SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Involutions Symmetric ThreeCnots CnotIsHCzH Others Squares TwoQubit SinglesCommute
CHECK_DEADLOCK FALSE
