SPECIFICATION Spec
CONSTANTS
  Many = 1
  Dev = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
