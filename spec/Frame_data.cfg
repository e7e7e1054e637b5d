SPECIFICATION Spec
CONSTANT Policy = "data"
INVARIANTS Intact Answers
CHECK_DEADLOCK FALSE
