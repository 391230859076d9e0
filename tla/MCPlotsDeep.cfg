SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 MaxResults = 4
INVARIANTS EveryLine DepthDown OwnValues
PROPERTY Kept
CHECK_DEADLOCK FALSE
