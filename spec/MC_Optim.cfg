SPECIFICATION Spec
CONSTANTS
  Steps = 4
INVARIANTS VelocityClosed FirstClosed SecondClosed Unbiased SecondPositive Nesterov NoMomentum
CHECK_DEADLOCK FALSE
