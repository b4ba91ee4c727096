SPECIFICATION Spec
CONSTANTS D = 4
INVARIANTS Range OneSeg Stored Convex Sharp
CHECK_DEADLOCK FALSE
