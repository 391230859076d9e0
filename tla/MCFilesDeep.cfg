SPECIFICATION Spec
CONSTANTS
  Digits = {"1", "2"}
  MaxWidth = 2
  MaxValues = 4
  PerLine = 3
  MaxComments = 2
INVARIANTS FixedRead FixedPrefix FreeRead ModelRead
CHECK_DEADLOCK FALSE
