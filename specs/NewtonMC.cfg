SPECIFICATION Spec
CONSTANTS MAXS = {1, 2, 5, 8}
 FREQS = {1, 2, 3, 5}
INVARIANTS Counts NeverTooMany Cycle VerdictOnlyIf AcceptOnlyAtLimit NanNeverSucceeds
PROPERTY Terminates
CHECK_DEADLOCK FALSE
