SPECIFICATION Spec
CONSTANTS R = 3
 Length = 3
 Faulty = "gone"
INVARIANT Right
CHECK_DEADLOCK FALSE
