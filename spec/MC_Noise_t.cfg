SPECIFICATION Spec
CONSTANTS
  N = 3
  Names = {"none", "depolarizing", "phase_flip", "amplitude_damping", "phase_damping", "generalized_amplitude_damping"}
INVARIANTS Hermitian MixtureOfBranches SameAsRun NoNoiseIsPure
CHECK_DEADLOCK FALSE
