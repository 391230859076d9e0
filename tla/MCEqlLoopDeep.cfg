SPECIFICATION Spec
CONSTANTS MaxIterations = 7
INVARIANTS NoFurther ConvergedAtFirst RaisedIffTwoCaps NeverThreeCaps LimitOnlyAtLimit Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
