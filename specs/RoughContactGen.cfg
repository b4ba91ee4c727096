SPECIFICATION Spec
CONSTANTS DEPTH = 3
 GEN = TRUE
CHECK_DEADLOCK FALSE
