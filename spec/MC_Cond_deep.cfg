SPECIFICATION Spec
CONSTANTS
  D = 5
  Emit = FALSE
INVARIANTS InvMeaning InvStored
CHECK_DEADLOCK FALSE
