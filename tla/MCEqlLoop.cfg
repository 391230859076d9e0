SPECIFICATION Spec
CONSTANTS MaxIterations = 5
INVARIANTS NoFurther ConvergedAtFirst RaisedIffTwoCaps NeverThreeCaps LimitOnlyAtLimit Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
