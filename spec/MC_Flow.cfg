SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxIO = 4
INVARIANTS SolvingAgrees FlowIffExists GFlowIffExists FlowImpliesGFlow AgreesWithLayers Earliest
