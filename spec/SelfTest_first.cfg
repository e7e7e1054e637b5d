SPECIFICATION Spec
CONSTANTS N = 3
Policy = "first"
INVARIANT NeverCryWolf
PROPERTY Found
CHECK_DEADLOCK FALSE
