SPECIFICATION Spec
CONSTANTS P = 7
 B = 3
 Faulty = "branch"
INVARIANT Right
CHECK_DEADLOCK FALSE
