SPECIFICATION Spec
CONSTANT D = 2
INVARIANTS InvTamper InvBuilt InvNamed InvComplete InvAbsent
CHECK_DEADLOCK FALSE
