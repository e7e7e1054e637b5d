SPECIFICATION Spec
CONSTANTS
  Rule = "x"
  Variant = "cyclic"
  Lim = 120
  Span = 3
INVARIANTS TypeOK Conserved StopsRight
CHECK_DEADLOCK FALSE
