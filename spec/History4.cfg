CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANTS OwnCount Independent Show
CHECK_DEADLOCK FALSE
