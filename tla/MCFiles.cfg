SPECIFICATION Spec
CONSTANTS
  Digits = {"1", "2"}
  MaxWidth = 2
  MaxValues = 3
  PerLine = 2
  MaxComments = 1
INVARIANTS FixedRead FixedPrefix FreeRead ModelRead
CHECK_DEADLOCK FALSE
