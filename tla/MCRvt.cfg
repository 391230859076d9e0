SPECIFICATION Spec
CONSTANTS
  Amps = {"0.01", "0.1", "0.5"}
  Durs = {"1", "5", "30"}
  Gains = {"0.5", "3"}
  MaxReads = 2
INVARIANTS Reads Homogeneous Stiff AboveRms
CHECK_DEADLOCK FALSE
