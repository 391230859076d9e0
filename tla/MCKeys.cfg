SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxOps = 5
INVARIANTS Refines OneEach
PROPERTIES LastPut StrainKeeps
CHECK_DEADLOCK FALSE
