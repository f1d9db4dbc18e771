SPECIFICATION Spec
CONSTANTS
  D = 5
  Emit = FALSE
INVARIANTS LastWrite Listing Alike Apart
CHECK_DEADLOCK FALSE
