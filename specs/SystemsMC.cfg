SPECIFICATION Spec
CONSTANTS DEPTH = 5
 GEN = FALSE
INVARIANTS NoOther Mode Restored Order Single Reset Twice
VIEW View
CHECK_DEADLOCK FALSE
