SPECIFICATION Spec
INVARIANTS InvAnswered InvFresh InvCode
PROPERTIES PropIsolated PropEnds
CHECK_DEADLOCK FALSE
