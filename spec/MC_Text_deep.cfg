SPECIFICATION Spec
CONSTANTS
  Many = 2
  Dev = 2
  Emit = FALSE
INVARIANTS Reads Placed
CHECK_DEADLOCK FALSE
