SPECIFICATION GSpec
CONSTANTS
 MaxAlts = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
