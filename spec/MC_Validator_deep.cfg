SPECIFICATION Spec
CONSTANT D = 3
INVARIANTS InvTamper InvBuilt InvNamed InvComplete InvAbsent
CHECK_DEADLOCK FALSE
