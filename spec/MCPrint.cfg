SPECIFICATION Spec
INVARIANTS TypeOk
CHECK_DEADLOCK FALSE
