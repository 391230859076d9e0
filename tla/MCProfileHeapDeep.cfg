SPECIFICATION Spec
CONSTANTS
  Thicks = {1, 2}
  MaxProfiles = 3
  MaxLayers = 3
  MaxHeap = 11
INVARIANTS NoSharing Owned SplitKeepsDepth
PROPERTY Isolated
CHECK_DEADLOCK FALSE
