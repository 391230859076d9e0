SPECIFICATION Spec
CONSTANTS
 MaxAlts = 1
INVARIANTS Complete Once Ordered SameAsFunction
CHECK_DEADLOCK FALSE
