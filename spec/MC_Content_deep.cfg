SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = FALSE
VIEW Content
INVARIANTS InvFunctional InvOwned InvObjects InvConditions InvFrames InvIdempotent InvCommute Frame Removed InvIdentity InvRegen
CHECK_DEADLOCK FALSE
