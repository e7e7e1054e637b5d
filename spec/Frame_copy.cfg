SPECIFICATION Spec
CONSTANT Policy = "copy"
INVARIANTS Intact Answers
CHECK_DEADLOCK FALSE
