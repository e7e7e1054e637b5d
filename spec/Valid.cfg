SPECIFICATION Spec
INVARIANTS Show Monotone Live Documented
CHECK_DEADLOCK FALSE
