SPECIFICATION Spec
CONSTANT MaxSubst = 6
INVARIANTS Agreement Completeness Confirmation NoKeyWithoutConfirmation Honest
CHECK_DEADLOCK FALSE
