SPECIFICATION Spec
CONSTANTS MaxLayers = 3
INVARIANTS Boundary ModulusKeepsMagnitude TransferFunctions Slope Split Uniform
CHECK_DEADLOCK FALSE
