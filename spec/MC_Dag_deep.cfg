SPECIFICATION Spec
CONSTANTS
  D = 6
  Emit = FALSE
VIEW View
INVARIANTS BothWays OnceListed ToTheRoot Replays
PROPERTY Stays
CHECK_DEADLOCK FALSE
