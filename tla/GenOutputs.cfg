SPECIFICATION GSpec
CONSTANTS
 MaxAdds = 3
 Lengths = {1, 2}
INVARIANTS Aligned FixedRefsStay Emit
CHECK_DEADLOCK FALSE
