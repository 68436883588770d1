SPECIFICATION Spec
INVARIANTS InvAnswered InvFresh
PROPERTIES PropIsolated PropReadOnly PropEnds
CHECK_DEADLOCK FALSE
