SPECIFICATION Spec
CONSTANTS
 StrainSets <- SSDeep
 Vels <- VV
 Dmins <- DD
 Steps = 6
INVARIANTS HistoryFree Bounded SmallStrain ErrorZero LinearNeverMoves
CHECK_DEADLOCK FALSE
