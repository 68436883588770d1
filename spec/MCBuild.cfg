SPECIFICATION Spec
INVARIANTS TypeOk
PROPERTIES PropGrows
CHECK_DEADLOCK FALSE
