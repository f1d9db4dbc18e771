SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = FALSE
INVARIANTS LastWrite Listing Alike Apart
CHECK_DEADLOCK FALSE
