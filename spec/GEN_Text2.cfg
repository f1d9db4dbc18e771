SPECIFICATION Spec
CONSTANTS
  Many = 2
  Dev = 1
  Emit = TRUE
CHECK_DEADLOCK FALSE
