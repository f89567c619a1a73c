SPECIFICATION Spec
CONSTANTS R = 3
 Length = 3
 Faulty = "keep"
INVARIANT Right
CHECK_DEADLOCK FALSE
