SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1, 2, 3}
 N = 6
 Ns = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS RoundTrip Energy PeakBound Measures Homogeneous Stiff Soft
CHECK_DEADLOCK FALSE
