SPECIFICATION Spec
CONSTANTS
  NFEV = {4, 8, 20}
  MOVES = {6, 0}
  MAXSTEPS = {1, 4}
  NW = {1, 2}
  BACK = {2, 1000}
  INC = {3, 2}
  CB = {TRUE, FALSE}
  GEN = FALSE
  MAXHIST = 99
INVARIANTS TypeOK RecordedAreAccepted CallbackBracket NoCallbackWithout RefusedHasNothing
  LengthInRange FirstLength FallbackDiscipline RetryDiscipline GrowthLimited EndHasReason
  NeverContinuesPastStop BoundedRetries
PROPERTY Terminates
CHECK_DEADLOCK FALSE
