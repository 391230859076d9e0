SPECIFICATION GSpec
CONSTANTS
  Thicks = {8}
  MaxProfiles = 4
  MaxLayers = 8
  MaxHeap = 40
  Starts = {1}
  Depth = 3
INVARIANTS NoSharing Owned Emit
PROPERTY Isolation
CHECK_DEADLOCK FALSE
