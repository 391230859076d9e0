SPECIFICATION Spec
CONSTANTS
  Thicks = {1, 3}
  Vels = {1}
  MaxLayers = 3
  Count = 2
INVARIANTS SeedUntouched NoSharing Structure CountOK
CHECK_DEADLOCK FALSE
