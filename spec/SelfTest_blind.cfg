SPECIFICATION Spec
CONSTANTS N = 3
Policy = "blind"
INVARIANT NeverCryWolf
PROPERTY Found
CHECK_DEADLOCK FALSE
