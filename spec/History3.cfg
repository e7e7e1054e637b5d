CONSTANT Depth = 3
SPECIFICATION Spec
INVARIANTS OwnCount Independent Show
CHECK_DEADLOCK FALSE
