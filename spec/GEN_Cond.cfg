SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = TRUE
CHECK_DEADLOCK FALSE
