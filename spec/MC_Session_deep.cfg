SPECIFICATION Spec
CONSTANTS
  D = 3
  Emit = FALSE
  Flaws = {"none", "panics", "keeps-half", "forgets", "moody"}
INVARIANTS Fine Seen
CHECK_DEADLOCK FALSE
