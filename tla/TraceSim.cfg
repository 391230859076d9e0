SPECIFICATION SimSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
