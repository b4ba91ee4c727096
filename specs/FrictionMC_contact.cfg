SPECIFICATION Spec
CONSTANTS KIND = "contact"
 DEPTH = 4
 GEN = FALSE
INVARIANTS HistoryOnlyCommitted Bounded Coulomb Idempotent Monotone ReturnPoint SteadyAfterOnePass
VIEW View
CHECK_DEADLOCK FALSE
