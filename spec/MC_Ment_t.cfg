SPECIFICATION Spec
CONSTANTS
  K = 15
  M = 2
INVARIANTS Hermitian UnitVector Traceless ProjectorsIdempotent Complementary BrasAreEigenvectors InPlane
CHECK_DEADLOCK FALSE
