SPECIFICATION Spec
CONSTANTS
  D = 2
  Crashes = 1
  SaidOf <- MCSaid
INVARIANTS InvImage InvBefore InvChain InvListed InvNamed InvAgain
CHECK_DEADLOCK FALSE
