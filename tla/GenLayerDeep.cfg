SPECIFICATION GSpec
CONSTANTS
 StrainSets <- SS
 Vels <- V1
 Dmins <- D2
 Steps = 0
 Depth = 4
INVARIANTS HistoryFree Bounded SmallStrain ErrorZero LinearNeverMoves Emit
CHECK_DEADLOCK FALSE
