SPECIFICATION Spec
CONSTANT Policy = "inout"
INVARIANTS Intact Answers
CHECK_DEADLOCK FALSE
