SPECIFICATION Spec
CONSTANTS
  D = 3
  Thin = 3
  Emit = FALSE
INVARIANTS Reads LastWins Needs OneKind
CHECK_DEADLOCK FALSE
