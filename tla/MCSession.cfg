SPECIFICATION Spec
CONSTANTS
 Motions = {1, 2}
 Profiles = {1, 2}
 Calcs = {1, 2, 3}
 Edits = 1
 Depth = 4
INVARIANTS OnlyInputs Untouched
CHECK_DEADLOCK FALSE
