SPECIFICATION Spec
CONSTANTS
  D = 3
  Thin = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
