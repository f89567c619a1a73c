SPECIFICATION Spec
CONSTANT MaxSubst = 6
INVARIANT Emit
POSTCONDITION Post
CHECK_DEADLOCK FALSE
