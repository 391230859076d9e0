SPECIFICATION Spec
CONSTANTS
  Vals = {"0", "0.5", "1"}
  N = 4
INVARIANTS WithinLimits MeetsTable StaysBetween ConstantOutside
CHECK_DEADLOCK FALSE
