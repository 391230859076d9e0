SPECIFICATION Spec
CONSTANTS MaxLayers = 4
INVARIANTS Boundary ModulusKeepsMagnitude TransferFunctions Slope Split Uniform
CHECK_DEADLOCK FALSE
