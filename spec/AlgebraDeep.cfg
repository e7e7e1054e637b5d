CONSTANTS Depth = 3
 Wide = TRUE
SPECIFICATION Spec
INVARIANTS Minimises Nearest Firm Involution Differentiable
CHECK_DEADLOCK FALSE
