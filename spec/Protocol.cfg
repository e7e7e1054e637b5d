CONSTANT Limits = {1, 2, 3, 9, 10, 11, 21, 25}
SPECIFICATION Spec
INVARIANTS TypeOK InOrder Silent Outcome LastSeen NotEarly NotLate
PROPERTY Stops
CHECK_DEADLOCK FALSE
