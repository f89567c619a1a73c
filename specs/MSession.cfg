SPECIFICATION Spec
CONSTANTS Honest = TRUE MaxAnswers = 2
INVARIANTS NoReuse Extractable
CHECK_DEADLOCK FALSE
