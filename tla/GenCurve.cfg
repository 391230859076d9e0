SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Params = {"mod_reduc", "damping"}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
