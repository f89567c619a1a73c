SPECIFICATION Spec
CONSTANTS R = 3
 Length = 3
 Faulty = "none"
INVARIANT Right
CHECK_DEADLOCK FALSE
