SPECIFICATION Spec
CONSTANTS
 StrainSets <- SS
 Vels <- VV
 Dmins <- DD
 Steps = 4
INVARIANTS HistoryFree Bounded SmallStrain ErrorZero LinearNeverMoves
CHECK_DEADLOCK FALSE
