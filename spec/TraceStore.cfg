SPECIFICATION Spec
CONSTANTS
  Start <- TStart
  Check <- TCheck
  Final <- TFinal
  SaidOf <- TSaidOf
CHECK_DEADLOCK FALSE
