SPECIFICATION Spec
CONSTANTS
  Thicks = {0, 1, 2}
  Weights = {1, 2}
  MaxLen = 3
INVARIANTS GeometryOK Contiguous StartsAtSurface LookupUnique EffectiveLeTotal
CHECK_DEADLOCK FALSE
