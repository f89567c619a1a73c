SPECIFICATION Spec
CONSTANTS Honest = FALSE MaxAnswers = 2
INVARIANTS NoReuse Extractable
CHECK_DEADLOCK FALSE
