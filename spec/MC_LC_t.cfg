SPECIFICATION Spec
CONSTANTS
  N = 4
  CertN = 4
INVARIANTS Certified Involution InOrbit Simple CertificatesAreOrbits
CHECK_DEADLOCK FALSE
