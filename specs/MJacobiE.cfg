SPECIFICATION Spec
CONSTANTS P = 7
 B = 3
 Faulty = "early"
INVARIANT Right
CHECK_DEADLOCK FALSE
