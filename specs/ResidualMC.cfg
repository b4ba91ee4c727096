SPECIFICATION Spec
CONSTANT B = 1
CONSTRAINT Few
INVARIANT Inv
CHECK_DEADLOCK FALSE
