CONSTANTS Depth = 3
 Wide = FALSE
SPECIFICATION Spec
INVARIANT Show
CHECK_DEADLOCK FALSE
