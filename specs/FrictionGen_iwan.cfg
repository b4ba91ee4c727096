SPECIFICATION Spec
CONSTANTS KIND = "iwan"
 DEPTH = 3
 GEN = TRUE
CHECK_DEADLOCK FALSE
