SPECIFICATION Spec
CONSTANTS
  Steps = 5
INVARIANTS VelocityClosed FirstClosed SecondClosed Unbiased SecondPositive Nesterov NoMomentum
CHECK_DEADLOCK FALSE
