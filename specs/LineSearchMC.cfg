SPECIFICATION Spec
CONSTANTS GS = {4, 7, 8, 9, 12}
 ITERS = {1, 2, 3, 4}
 TOLD = {2, 4}
 GEN = FALSE
INVARIANTS Safe Bracket SignBracket NoOvershoot FullStepWhenSafe Counted Best Limit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
