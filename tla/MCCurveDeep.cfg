SPECIFICATION Spec
CONSTANTS
  Vals = {"0", "0.25", "0.5", "1"}
  N = 5
INVARIANTS WithinLimits MeetsTable StaysBetween ConstantOutside
CHECK_DEADLOCK FALSE
