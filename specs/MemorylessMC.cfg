SPECIFICATION Spec
INVARIANTS Central Shape
CHECK_DEADLOCK FALSE
