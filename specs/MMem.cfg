SPECIFICATION Spec
INVARIANTS NoFalseAlarm AllFound
CHECK_DEADLOCK FALSE
