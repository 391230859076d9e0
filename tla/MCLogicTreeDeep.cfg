SPECIFICATION Spec
CONSTANTS
 MaxAlts = 2
INVARIANTS Complete Once Ordered SameAsFunction
CHECK_DEADLOCK FALSE
