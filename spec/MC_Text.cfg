SPECIFICATION Spec
CONSTANTS
  Many = 1
  Dev = 2
  Emit = FALSE
INVARIANTS Reads Padded Placed
CHECK_DEADLOCK FALSE
