SPECIFICATION Spec
CONSTANTS MATS = {1, 2}
 LEN = 6
 GEN = TRUE
INVARIANTS Own Gen
PROPERTY HandlesStable
CHECK_DEADLOCK FALSE
