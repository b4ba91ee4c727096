SPECIFICATION Spec
INVARIANTS Roots Monotone MonotoneQ Undamped
CHECK_DEADLOCK FALSE
