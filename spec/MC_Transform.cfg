SPECIFICATION Spec
CONSTANTS
  D = 3
  Thin = 1
  Emit = FALSE
INVARIANTS Reads LastWins Needs OneKind
CHECK_DEADLOCK FALSE
