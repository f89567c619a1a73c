SPECIFICATION Spec
INVARIANTS Group Encoding NoOther Complete Birational RoundTrip EdSound XSound KSound
CHECK_DEADLOCK FALSE
