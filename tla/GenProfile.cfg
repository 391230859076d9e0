SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2}
  Starts = {2}
  Depth = 2
INVARIANTS GeometryOK Contiguous StartsAtSurface Emit
CHECK_DEADLOCK FALSE
