SPECIFICATION Spec
CONSTANTS
  Zs = {"-2", "-1.2", "-0.7", "0", "0.4", "1.3", "2"}
  Corrs = {"0", "0.3", "0.6", "0.9", "0.99", "1"}
  Percentiles <- PctsDeep
  MaxCount = 12
  NLayers = 5
  Kinds = {"darendeli", "spid"}
INVARIANTS ChainCorrelation Recovered Bounded Cycles AtItsPercentile MedianIsMean ScaleValue
CHECK_DEADLOCK FALSE
