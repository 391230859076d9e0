SPECIFICATION Spec
CONSTANTS
  Zs = {"-2", "-0.7", "0", "1.3", "2"}
  Corrs = {"0", "0.3", "0.9", "1"}
  Percentiles <- Pcts
  MaxCount = 6
  NLayers = 4
  Kinds = {"darendeli", "spid"}
INVARIANTS ChainCorrelation Recovered Bounded Cycles AtItsPercentile MedianIsMean ScaleValue
CHECK_DEADLOCK FALSE
