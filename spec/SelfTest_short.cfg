SPECIFICATION Spec
CONSTANTS N = 3
Policy = "short"
INVARIANT NeverCryWolf
PROPERTY Found
CHECK_DEADLOCK FALSE
