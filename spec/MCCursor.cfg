SPECIFICATION Spec
INVARIANTS TypeOk Steps
CHECK_DEADLOCK FALSE
