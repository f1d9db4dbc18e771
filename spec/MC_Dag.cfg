SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = FALSE
VIEW View
INVARIANTS BothWays OnceListed ToTheRoot Replays
PROPERTY Stays
CHECK_DEADLOCK FALSE
