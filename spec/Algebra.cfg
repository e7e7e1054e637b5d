CONSTANTS Depth = 2
 Wide = TRUE
SPECIFICATION Spec
INVARIANTS Minimises Nearest Firm Involution Differentiable
CHECK_DEADLOCK FALSE
