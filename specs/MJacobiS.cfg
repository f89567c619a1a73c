SPECIFICATION Spec
CONSTANTS P = 7
 B = 3
 Faulty = "same"
INVARIANT Right
CHECK_DEADLOCK FALSE
