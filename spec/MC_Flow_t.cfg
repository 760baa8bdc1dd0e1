SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxIO = 5
INVARIANTS SolvingAgrees FlowIffExists GFlowIffExists FlowImpliesGFlow AgreesWithLayers Earliest
