SPECIFICATION Spec
CONSTANTS
  N = 3
  CertN = 3
INVARIANTS Certified Involution InOrbit Simple CertificatesAreOrbits
CHECK_DEADLOCK FALSE
