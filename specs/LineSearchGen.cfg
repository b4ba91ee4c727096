SPECIFICATION Spec
CONSTANTS GS = {4, 7, 8, 9, 12}
 ITERS = {1, 3}
 TOLD = {2, 4}
 GEN = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
