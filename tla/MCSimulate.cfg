SPECIFICATION Spec
CONSTANTS
  Thicks = {1, 2}
  Vels = {1, 2}
  MaxLayers = 3
  Count = 1
INVARIANTS SeedUntouched NoSharing Structure CountOK
CHECK_DEADLOCK FALSE
