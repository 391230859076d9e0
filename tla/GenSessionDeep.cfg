SPECIFICATION GSpec
CONSTANTS
 Motions = {1, 2}
 Profiles = {1, 2}
 Calcs = {1, 2, 3}
 Edits = 2
 Depth = 3
INVARIANTS OnlyInputs Untouched Emit
CHECK_DEADLOCK FALSE
