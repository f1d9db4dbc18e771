SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = FALSE
INVARIANTS InvMeaning InvStored
CHECK_DEADLOCK FALSE
