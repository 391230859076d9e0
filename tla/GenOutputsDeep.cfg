SPECIFICATION GSpec
CONSTANTS
 MaxAdds = 4
 Lengths = {1, 2}
INVARIANTS Aligned FixedRefsStay Emit
CHECK_DEADLOCK FALSE
