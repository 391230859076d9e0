SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxOps = 7
INVARIANTS Refines OneEach
PROPERTIES LastPut StrainKeeps
CHECK_DEADLOCK FALSE
