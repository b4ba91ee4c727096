SPECIFICATION Spec
CONSTANTS DEPTH = 4
 GEN = FALSE
INVARIANTS Complete OneHeader Combine
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
