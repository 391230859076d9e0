SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1, 2, 3}
 N = 4
 Ns = {1, 2, 3, 4, 5, 8}
INVARIANTS RoundTrip Energy PeakBound Measures Homogeneous Stiff Soft
CHECK_DEADLOCK FALSE
