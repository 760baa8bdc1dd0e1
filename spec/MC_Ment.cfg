SPECIFICATION Spec
CONSTANTS
  K = 7
  M = 1
INVARIANTS Hermitian UnitVector Traceless ProjectorsIdempotent Complementary BrasAreEigenvectors InPlane
CHECK_DEADLOCK FALSE
