SPECIFICATION Spec
CONSTANTS
  D = 3
  Emit = TRUE
VIEW Content
CHECK_DEADLOCK FALSE
