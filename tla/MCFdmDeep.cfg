SPECIFICATION Spec
CONSTANTS
 Vals = {1, 4}
 N = 7
INVARIANTS RawOK KoOK SmoothOK KaOK
CHECK_DEADLOCK FALSE
