SPECIFICATION Spec
CONSTANTS R = 3
 Length = 3
 Faulty = "zero"
INVARIANT Right
CHECK_DEADLOCK FALSE
