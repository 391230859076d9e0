SPECIFICATION GSpec
CONSTANTS
 N = 3
 MaxOps = 3
 Begins <- B1
INVARIANTS Refines OneEach Emit
CHECK_DEADLOCK FALSE
