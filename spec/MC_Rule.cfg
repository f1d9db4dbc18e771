SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = FALSE
INVARIANTS Agrees First
CHECK_DEADLOCK FALSE
