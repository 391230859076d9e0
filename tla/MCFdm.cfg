SPECIFICATION Spec
CONSTANTS
 Vals = {1, 3, 7}
 N = 5
INVARIANTS RawOK KoOK SmoothOK KaOK
CHECK_DEADLOCK FALSE
