SPECIFICATION Spec
CONSTANTS
  D = 2
  Emit = TRUE
  Flaws = {"none"}
CHECK_DEADLOCK FALSE
