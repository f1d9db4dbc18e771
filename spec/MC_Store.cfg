SPECIFICATION Spec
CONSTANTS
  D = 3
  Emit = FALSE
  SaidOf <- MCSaid
VIEW View
INVARIANTS InvHistory InvListed InvDeps InvRelations InvAgain InvBase InvNames InvSearch
PROPERTY Stable
CHECK_DEADLOCK FALSE
