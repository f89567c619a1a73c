SPECIFICATION Spec
CONSTANTS N = 7
 Slack = 3
 Bound = 12
 Least = 7
 Most = 17
 Faulty = "none"
INVARIANT Ends
CHECK_DEADLOCK FALSE
