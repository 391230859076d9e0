SPECIFICATION Spec
CONSTANTS
 Vals = {"nan", "0.5", "1", "3", "7"}
 N = 7
INVARIANTS Within MissingIgnored SingleResult Constant Reversed Spread Steps
CHECK_DEADLOCK FALSE
