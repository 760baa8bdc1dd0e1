SPECIFICATION Spec
CONSTANTS
  N = 2
  Steps = 2
INVARIANTS Faithful RoundTrip Commute GroupLaws
CHECK_DEADLOCK FALSE
