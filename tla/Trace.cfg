SPECIFICATION Spec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
