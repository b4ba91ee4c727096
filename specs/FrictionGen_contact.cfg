SPECIFICATION Spec
CONSTANTS KIND = "contact"
 DEPTH = 3
 GEN = TRUE
CHECK_DEADLOCK FALSE
