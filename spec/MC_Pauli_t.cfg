SPECIFICATION Spec
CONSTANTS
  N = 3
  Steps = 1
INVARIANTS Faithful RoundTrip Commute GroupLaws
CHECK_DEADLOCK FALSE
