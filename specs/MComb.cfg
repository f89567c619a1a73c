SPECIFICATION Spec
CONSTANTS N = 65521
 Teeth = 4
 Tables = 2
 Bits = 2
 Faulty = "none"
INVARIANTS Regular Right
CHECK_DEADLOCK FALSE
