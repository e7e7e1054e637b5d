SPECIFICATION Spec
CONSTANT Policy = "warm"
INVARIANTS Answers
CHECK_DEADLOCK FALSE
