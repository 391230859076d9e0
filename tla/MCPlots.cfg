SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 MaxResults = 3
INVARIANTS EveryLine DepthDown OwnValues
PROPERTY Kept
CHECK_DEADLOCK FALSE
