SPECIFICATION Spec
CONSTANTS N = 251
 Teeth = 4
 Tables = 2
 Bits = 1
 Faulty = "mask"
INVARIANT Right
CHECK_DEADLOCK FALSE
