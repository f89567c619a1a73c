SPECIFICATION Spec
CONSTANTS R = 3
 Length = 3
 Faulty = "neg"
INVARIANT Right
CHECK_DEADLOCK FALSE
