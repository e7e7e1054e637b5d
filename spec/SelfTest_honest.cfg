SPECIFICATION Spec
CONSTANTS N = 3
Policy = "honest"
INVARIANT NeverCryWolf
PROPERTY Found
CHECK_DEADLOCK FALSE
