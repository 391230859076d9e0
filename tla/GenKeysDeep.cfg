SPECIFICATION GSpec
CONSTANTS
 N = 3
 MaxOps = 3
 Begins <- BAll
INVARIANTS Refines OneEach Emit
CHECK_DEADLOCK FALSE
