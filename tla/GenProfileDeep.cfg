SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2}
  Starts = {1}
  Depth = 3
INVARIANTS GeometryOK Contiguous StartsAtSurface Emit
CHECK_DEADLOCK FALSE
