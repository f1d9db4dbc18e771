SPECIFICATION Spec
CONSTANTS
  Start <- TStart
  Check <- TCheck
  Final <- TFinal
CHECK_DEADLOCK FALSE
