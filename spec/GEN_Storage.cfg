SPECIFICATION Spec
CONSTANTS
  D = 3
  Emit = TRUE

CHECK_DEADLOCK FALSE
