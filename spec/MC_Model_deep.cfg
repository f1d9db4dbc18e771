SPECIFICATION Spec
CONSTANTS
  D = 5
  Emit = FALSE
INVARIANTS Plain Holds Leads
CHECK_DEADLOCK FALSE
