SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Params = {"mod_reduc", "damping"}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
