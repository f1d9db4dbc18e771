SPECIFICATION Spec
CONSTANTS
  D = 3
  Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
