SPECIFICATION Spec
CONSTANTS R = 3
 Length = 3
 Faulty = "rep"
INVARIANT Right
CHECK_DEADLOCK FALSE
