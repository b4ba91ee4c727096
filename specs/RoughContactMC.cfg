SPECIFICATION Spec
CONSTANTS DEPTH = 4
 GEN = FALSE
INVARIANTS HistoryOnlyCommitted Coulomb Separated Frictionless Idempotent
PROPERTY Approach
VIEW View
CHECK_DEADLOCK FALSE
