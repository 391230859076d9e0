SPECIFICATION Spec
CONSTANTS
 MaxAdds = 5
 Lengths = {1, 2, 3, 4}
INVARIANTS Aligned FixedRefsStay
CHECK_DEADLOCK FALSE
