SPECIFICATION Spec
INVARIANTS InvSoFar
CHECK_DEADLOCK FALSE
