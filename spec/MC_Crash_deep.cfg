SPECIFICATION Spec
CONSTANTS
  D = 3
  Crashes = 2
  SaidOf <- MCSaid
INVARIANTS InvImage InvBefore InvChain InvListed InvNamed InvAgain
CHECK_DEADLOCK FALSE
