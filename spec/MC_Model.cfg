SPECIFICATION Spec
CONSTANTS
  D = 4
  Emit = FALSE
INVARIANTS Plain Holds Leads
CHECK_DEADLOCK FALSE
