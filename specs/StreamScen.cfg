SPECIFICATION Spec
INVARIANT Emit
POSTCONDITION Post
CHECK_DEADLOCK FALSE
