SPECIFICATION Spec
CONSTANTS P = 7
 B = 3
 Faulty = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
