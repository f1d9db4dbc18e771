SPECIFICATION Spec
CONSTANTS
  D = 3
  Emit = TRUE
  SaidOf <- MCSaid
VIEW View


CHECK_DEADLOCK FALSE
