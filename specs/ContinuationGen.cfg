SPECIFICATION Spec
CONSTANTS
  NFEV = {4, 20}
  MOVES = {6, 0}
  MAXSTEPS = {3}
  NW = {2}
  BACK = {2}
  INC = {3}
  CB = {TRUE}
  GEN = TRUE
  MAXHIST = 99
INVARIANT Gen
CHECK_DEADLOCK FALSE
