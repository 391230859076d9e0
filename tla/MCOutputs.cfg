SPECIFICATION Spec
CONSTANTS
 MaxAdds = 4
 Lengths = {1, 2, 3}
INVARIANTS Aligned FixedRefsStay
CHECK_DEADLOCK FALSE
