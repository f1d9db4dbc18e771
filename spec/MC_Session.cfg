SPECIFICATION Spec
CONSTANTS
  D = 2
  Emit = FALSE
  Flaws = {"none", "panics", "keeps-half", "forgets", "moody"}
INVARIANTS Fine Seen
CHECK_DEADLOCK FALSE
