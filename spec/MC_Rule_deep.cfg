SPECIFICATION Spec
CONSTANTS
  D = 5
  Emit = FALSE
INVARIANTS Agrees First
CHECK_DEADLOCK FALSE
