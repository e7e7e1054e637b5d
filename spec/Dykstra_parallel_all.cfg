SPECIFICATION Spec
CONSTANTS
  Rule = "all"
  Variant = "parallel"
  Lim = 200
  Span = 3
INVARIANTS TypeOK Conserved StopsRight
CHECK_DEADLOCK FALSE
